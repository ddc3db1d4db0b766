#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of finished checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'TLA+ specification (TLC): '
G = T + 'behaviours generated by TLC replayed into the real code, outcomes compared with the specification'
N = {
 'C15': ('BitIO.tla; ' , 'All types x widths x alignments x boundary patterns (11520 behaviours) plus seeded walks; the model states round trip and reported widths as invariants. Trusts TLC, the driver and the standard streams.'),
 'C16': ('Strings.tla; ', 'Seeded behaviours over all string/number codings with exact and disturbed room. Bounded string lengths (up to 300) and up to 11 groups of 7 bits.'),
 'C20': ('Flags.tla; ', 'All ordered pairs of bits (0..31) through a fixed set/add/check/remove history, seeded walks on a bare full box and on an instance of every registered type.'),
 'C21': ('Registry.tla, BoxTypes.tla; ', 'Every registered code, all its one-bit neighbours, random codes, and walks on hand-filled registries.'),
 'C22': ('TimeEndian.tla, TimeCases.tla; ', 'Every month boundary 1904-2106, limits, seeded 64-bit values, in a time zone that is not UTC.'),
 'C23': ('Tables.tla; ', 'All lists up to length 5 (7 thorough) over 3 letters, seeded lists, runs of up to 131072 and extreme values, chunk offsets around 2^32.'),
 'C07': ('Layout.tla, Codec.tla, BoxCases.tla; ', 'Every registered type code (105), all versions, all flag combinations the layout depends on, boundary and seeded field values; lists up to 300 entries, tables beyond 65535 entries, strings with zero bytes, values that must be refused. The layouts are interpreted by TLC, which also checks size and round trip on the model.'),
 'C08': ('Layout.tla, Codec.tla, BoxCases.tla; ', 'As C07; decoding into new, used and previously decoded objects, at stream offsets, with other bytes behind, and from the other written forms (short descriptor lengths, QuickTime handler names).'),
 'C09': ('Layout.tla, Codec.tla, BoxCases.tla; ', 'As C07; size stated separately from the encoding in the model.'),
 'C14': ('Layout.tla, Codec.tla, BoxCases.tla; ', 'As C07; whole text compared, so order, labels, numbers, lists and absent fields are all covered.'),
 'C10': ('Tree.tla, TreeCases.tla; ', 'All trees of up to 4 (5 thorough) nodes at a small scale with every starting combination of header forms, any order of corrections; seeded trees of up to 14 boxes with real 64-bit sizes around the limit, each laid out three times with changes in between. A sparse stream stands for files of any length.'),
 'C11': ('Header.tla; ', 'Seeded histories (read, seek, lay out, write, read again) over the three header forms, boundary sizes and positions up to 2^60, short streams. A sparse stream stands for files of any length.'),
 'C12': ('Reader.tla, Codec.tla, Layout.tla; ', 'Seeded forests of up to 40 boxes over every registered code, unknown codes, three header forms, descriptors nobody knows; the specified reader machine must report the forest (checked by TLC), the real reader and the mp4-tool binary must print that report.'),
 'C13': ('Reader.tla; ', 'Seeded files (QuickTime variants included), each cut at every byte, every byte set to up to 12 values, every four bytes to 13 values; heap and CPU per read metered, address sanitizer on a part. TLC checks that the specified reader fails on cuts. Alterations of single values only, no fuzzing of several at once. Known finding KF1 excluded by position.'),
 'C24': ('Reader.tla, Codec.tla; ', 'Seeded forests that contain QuickTime meta, handler names, sound entries of version 1 and 2, entries in wave, mixed with ISO forms; raw entries are also encoded again.'),
 'C17': ('AnnexB.tla, BigNal.tla, H264Track.tla; ', 'Every well-formed stream of up to 12 bytes (14 thorough) over {0, 1, other}, every string of up to 6 bytes that does not begin with a start code, seeded long streams; seeded track histories with all slice types, parameter sets, SEI and refused units, parameter sets repeated and beyond what fits; units of up to 17 MiB as runs of bytes. TLC checks that the scanner machine finds what the grammar put in. NAL units ending in zero bytes and SPS of up to 4 bytes are outside.'),
 'C18': ('FastFile.tla; ', 'All operation histories of two writers up to length 6 (7 thorough), seeded histories of three writers with up to 3 MB; directory content compared after every step. Trusts the file system.'),
}
R = T + 'histories generated by TLC are run through the real writers and the recorded files are checked by TLC against the predicates of the specification'
MUX = 'Mux.tla, Movie.tla, MuxTrace.tla; '
N.update({
 'C01': (MUX + 'Long.tla, LongTrace.tla; ', 'All histories of two tracks up to 4 (6 thorough) sample/chunk operations, seeded histories of up to 50 operations over all codecs, up to 4 tracks and both writers, media data around multiples of 1 MiB, histories of runs with up to 70,000 samples. TLC also checks that the file the specified writers lay out satisfies the same predicates.', R),
 'C02': (MUX + 'Long.tla, LongTrace.tla; ', 'As C01; a duration whose product with the time scale a float does not hold exactly may be off by what rounding a float allows; 64-bit time stamps, edit lists and times.', R),
 'C03': (MUX + 'Long.tla, LongTrace.tla; ', 'As C01.', R),
 'C04': (MUX, 'As C01; inside of moov decoded with the layouts of C07.', R),
 'C05': ('Settle.tla, ' + MUX, 'Settle.tla: the loop that makes layout and moov size agree, all combinations of three tracks (four thorough) at a small scale, with a variant that stops early which TLC must reject. Seeded histories of more than 4 GiB whose media data or last chunk of some track is placed within a few bytes of the limit, for the fast-start writer also with moov growing across it and with chains in which one table after another must become wide. The inner parts of huge samples are holes.', R),
 'C06': (MUX, 'Seeded histories as in C01, without runs; movies of up to 300 tracks.', R),
 'C19': ('Faults.tla, Mux.tla, FaultTrace.tla; ', 'All schedules of up to two failures (three thorough) over the device events of both writers, applied to seeded histories; in addition every byte of output, intermediate file write and read, every positioning, file size limits and truncation. The model is checked to reject writers that leave out a check. Failures of a buffered ofstream after it accepted the data are outside.', T + 'failure schedules generated by TLC are applied to the real writers on simulated devices, recorded outcomes are checked by TLC against the invariants of the specification'),
})
N['C25'] = ('Inter.tla, MuxCore.tla, MuxTrace.tla; ', 'All interleavings of five sets of two or three short programs (27,687 schedules; movies of both writers, a reader, bit writers), seeded schedules of up to six parts with longer programs; the same parts on four threads, compared with the results alone and under the thread sanitizer. Thread schedules are those that happen.', T + 'schedules generated by TLC are carried out with real objects; results are compared with those of the programs alone and the files checked by TLC against the specification')
N['C26'] = ('Streams.tla, Reader.tla, BoxCases.tla, TreeCases.tla, FaultTrace.tla; ', 'All schedules of up to two failures over the stream events of reading a file, decoding, encoding, writing a tree, finding a box, taking and giving bits (343 schedules), applied to seeded files, boxes of every kind and trees; in addition every byte (a sample of them when there are many) and every positioning. The model is checked to reject five careless ways. Streams are simulated by stream buffers; data accepted counts as written.', N['C19'][2].replace('real writers on simulated devices', 'real code on simulated streams'))
try:
    from manifest_notes import MORE
    N.update(MORE)
except ImportError:
    pass
checks, na = [], []
for i in ids:
    if i in N:
        checks.append({'property': i, 'quick_cmd': f'bin/check {i} quick', 'thorough_cmd': f'bin/check {i} thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': (N[i][2] if len(N[i]) > 2 else G) + ' (' + N[i][0].strip('; ') + ')',
                       'level': 'model_checking', 'level_note': N[i][1]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
