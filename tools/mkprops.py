#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
A='atsc/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('S01','Output depends only on the input and the options',
 'Compressing the same samples with the same options always produces the same bytes, and decompressing the same bytes always produces the same samples: no clock, random source, hash iteration order, thread timing, memory address, environment variable or state kept from an earlier call takes part.',
 ['inputs','histories','schedules'],'every input, every option set, every process and every earlier call in the same process',
 'A test compares two runs of one input in one process; the sources of nondeterminism only show between processes or between histories.',
 [A+'compressor',A+'optimizer',A+'data.rs',A+'frame/mod.rs','vsri/src/lib.rs','wavbrro/src'],
 [('ordered map for the run-length index',A+'compressor/rle.rs IndexRLE::new'),('no mutable statics, no clock, no RNG in the workspace','whole workspace')])
p('S02','Each codec payload is read back field by field exactly as it was written',
 'For each compressor, decoding the bytes that its encoder produced gives back the same identifier, storage width, stored values, limits, step and positions, for every storage width; stored values come back as the number that was written in that width.',
 ['inputs'],'every content of every payload structure, all four storage widths',
 'Tests pin a few byte strings for one or two widths; a field order, type or width that differs between writer and reader for another width is not exercised.',
 [A+'compressor/constant.rs',A+'compressor/fft.rs',A+'compressor/noop.rs',A+'compressor/polynomial.rs',A+'compressor/rle.rs',A+'optimizer/utils.rs',A+'frame/mod.rs'],
 [('hand written Encode/Decode pairs',A+'compressor/{constant,rle,fft,polynomial}.rs'),('derived Encode/Decode pairs',A+'compressor/noop.rs, '+A+'frame/mod.rs, '+A+'optimizer/utils.rs'),('one shared binary configuration',A+'compressor/mod.rs BinConfig::get')])
p('S03','Compact integer storage is only chosen when every sample fits it exactly',
 'Samples are stored in an 8, 16 or 32 bit integer width only if every sample of the frame is a whole number inside the range of that width; any fractional sample, or any sample outside, forces the full 64 bit float width.',
 ['inputs'],'every non-empty frame of finite samples, including huge, tiny and boundary values',
 'Tests use three small vectors; a wrong boundary, a truncating conversion or a sample that escapes the scan silently corrupts values no test contains.',
 [A+'optimizer/utils.rs'],
 [('scan for fractional samples and extremes',A+'optimizer/utils.rs DataStats::new'),('width selection',A+'optimizer/utils.rs DataStats::bitdepth'),('integer/fraction split',A+'optimizer/utils.rs split_n')])
p('S04','A frame is always decoded by the codec that produced its payload',
 'The codec recorded in a frame is the one that produced the payload of that frame on every way of building it (fixed codec, bounded, automatic), decompression dispatches on that record to the matching decoder with the recorded sample count, and a decompressed stream is the concatenation of its frames in the order they were added.',
 ['inputs','configurations'],'every codec, every mode of compression, every sequence of frames',
 'Tests exercise a few codec/mode pairs; a mispaired arm only corrupts data for that pair or for the branch of the automatic selection that picks it.',
 [A+'compressor/mod.rs',A+'frame/mod.rs',A+'data.rs'],
 [('codec dispatch tables',A+'compressor/mod.rs'),('tag assignment',A+'frame/mod.rs CompressorFrame::{new,compress,compress_bounded,compress_best,decompress}'),('frame concatenation',A+'data.rs CompressedStream::decompress')])
p('S05','Exactly the finite samples are kept, in order, and chunks cover them once',
 'Planning a compression drops exactly the NaN and infinite samples and keeps all others unchanged and in order. The chunks handed to the codecs are consecutive, non-empty, at most 131072 samples long, and their concatenation is exactly the kept samples, one codec per chunk.',
 ['inputs'],'every sample sequence of every length, including the empty one',
 'Tests check four lengths and no value; a lost tail, an overlap or a dropped finite value shows only for particular lengths.',
 [A+'optimizer/mod.rs',A+'utils/mod.rs'],
 [('cleaning',A+'optimizer/mod.rs OptimizerPlan::clean_data'),('chunk sizes',A+'optimizer/mod.rs OptimizerPlan::get_chunks_sizes'),('slicing',A+'optimizer/mod.rs OptimizerPlan::get_execution')])
p('S06','Stream header: same layout on both sides, checked before any frame is decoded',
 'A stream starts with the four magic bytes, the format version as four little endian bytes and one byte with the number of frames (which stays at its maximum when there are more), followed by the frames, and the reader takes exactly these positions. Input with other magic bytes or a version above the supported one is refused before any frame is decoded; a file is recognised as compressed by exactly these magic bytes.',
 ['inputs','histories'],'every stream, every number of frames, every header content',
 'Tests read back one header and try one too high version; older versions, more than 255 frames, partial magic and the order of checks are not reached.',
 [A+'header.rs',A+'data.rs',A+'utils/readers/bro_reader.rs'],
 [('header writer and reader',A+'header.rs CompressorHeader::{to_bytes,from_bytes}'),('version check',A+'header.rs verify_header_versions'),('stream writer and reader',A+'data.rs CompressedStream::{to_bytes,from_bytes}'),('magic check',A+'utils/readers/bro_reader.rs is_bro_file')])
p('S07','Automatic selection never stores a frame whose reported error is over the bound',
 'With automatic selection, the stored payload is one whose error, measured on the whole frame, is within the requested bound whenever any candidate meets it (otherwise the exact run-length payload or the smallest candidate); among the candidates run on the whole frame the smallest eligible one is taken. Constant storage is only chosen when all samples are equal.',
 ['inputs','configurations'],'every frame, every bound, all seven sampling levels',
 'Tests try a handful of series; the selection depends on the relation of three errors, three sizes and a sampled prefix that is not representative.',
 [A+'frame/mod.rs'],
 [('candidate selection',A+'frame/mod.rs CompressorFrame::compress_best')])
p('S08','The error a codec reports is the error of what will be decompressed',
 'The error reported by a bounded compression is computed by the documented error measure between the original samples and the same reconstruction that decompression will deliver from the stored payload (0 only for exact codecs); it is never left over from an earlier attempt, from padded data or from another payload.',
 ['inputs','configurations'],'every frame, every bound, every codec that takes a bound',
 'The bound tests assert on a few inputs; a stale or mismeasured error passes whenever the real error happens to be small.',
 [A+'compressor/fft.rs',A+'compressor/polynomial.rs',A+'compressor/constant.rs',A+'compressor/rle.rs',A+'utils/error.rs'],
 [('bounded search loops',A+'compressor/{fft,polynomial}.rs compress_bounded'),('error measure',A+'utils/error.rs error_mape, calculate_error')])
p('S09','Command line options reach the engine unchanged',
 'Each value of the compressor option selects the codec of that name, the error option is applied as that percentage, the sampling level reaches the selection unchanged, and lossy codecs run bounded; both command line programs agree on all of that, and every accepted option value is one the engine handles.',
 ['configurations'],'all compressor values, all accepted error values and sampling levels, both programs',
 'End-to-end tests use a few option sets; a swapped arm or a wrong scale factor stays unnoticed for the others.',
 [A+'main.rs','csv-compressor/src/main.rs',A+'frame/mod.rs'],
 [('option handling',A+'main.rs compress_data, Args'),('option handling','csv-compressor/src/main.rs compress_data, Args'),('sampling table',A+'frame/mod.rs COMPRESSION_SPEED')])
p('S10','No input/output failure is swallowed',
 'Every failure of an operating system call or of an encoder, decoder or parser that the programs make ends in a returned error, a panic or a failing exit status; none is ignored, replaced by a default value, or left to a destructor that cannot report it, and no transfer is assumed complete without having been completed.',
 ['fault_sequences','inputs'],'every failing call, at every call site of the workspace',
 'Tests run on a healthy file system; no test makes a read, write or flush fail.',
 [A+'main.rs',A+'csv.rs',A+'utils/readers/bro_reader.rs','csv-compressor/src','vsri/src/lib.rs','wavbrro/src','tools/src/bin/wav2wbro.rs'],
 [('error propagation','all functions that call into std::fs, std::io, csv, bincode, rkyv, hound'),('explicit flush','vsri/src/lib.rs flush_to, csv-compressor/src/csv.rs write_samples_to_csv_file')])
p('S11','Only the documented output is written, and only after the input was read',
 'A run writes only the files documented for its operation: the main program one file per processed input, at the path of the input with its extension replaced (bro when compressing, wbro when decompressing); the CSV compressor files named after the requested output base (extension bro, wavbro or vsri as the options ask; wbro and csv when decompressing). Nothing is removed, renamed, copied or linked. No output is opened before everything the run reads has been read successfully and the content of that output has been computed, so a refused input leaves an existing output untouched.',
 ['inputs','fault_sequences','configurations'],'every input path, every option set, every failing read or refused content',
 'Tests check that the output exists; not what else is touched, nor what is left after a refused input.',
 [A+'main.rs','csv-compressor/src/main.rs','wavbrro/src/write.rs','wavbrro/src/wavbrro.rs'],
 [('output naming and ordering',A+'main.rs process_single_file'),('container writer','wavbrro/src/write.rs write_wavbrro_file')])
p('S12','Directory mode: every file is processed once and failures are reported',
 'Given a directory, each regular file in it that the listing returns is processed exactly once with the same options as a single file would be, a file that fails does not keep the others from being processed, and the program ends with a failure status if at least one failed.',
 ['inputs','fault_sequences','configurations'],'every directory content, every subset of failing files',
 'The tests use directories where every file is valid.',
 [A+'main.rs'],[('directory walk',A+'main.rs process_directory'),('exit status',A+'main.rs main')])
p('S13','CSV ingestion yields one sample per data row, from the named column, or an error',
 'Reading a CSV yields exactly one sample per data row in file order, its value parsed from the column whose header is the requested name (or from the first column without header). A missing column, a row that is not valid CSV or a value that is not a number is reported as an error, never skipped or replaced.',
 ['inputs','configurations'],'every CSV file, every pair of field names, with and without header',
 'Tests use two-column files of two rows; column order, ragged rows and malformed values are not covered.',
 [A+'csv.rs',A+'main.rs','csv-compressor/src/csv.rs'],
 [('column lookup and row loop',A+'csv.rs read_samples_with_headers, read_samples'),('caller',A+'main.rs process_single_file'),('typed reader','csv-compressor/src/csv.rs read_samples_from_csv_file')])
p('S14','An index written to disk loads back as the same index',
 'Loading the file that an index was flushed to gives the same minimum and maximum time and the same segments in the same order, for every index including an empty one; every line that is written is one that the loader parses into the same field.',
 ['histories','inputs'],'every index content reachable by any sequence of updates',
 'Tests load one fixture; no test flushes and loads back.',
 ['vsri/src/lib.rs'],[('writer','vsri/src/lib.rs Vsri::flush_to'),('reader','vsri/src/lib.rs Vsri::load')])
p('S15','Index queries answer according to the segments',
 'The time of a sample position is that of the line of the segment containing the position, the position of a time is the inverse on the segment containing the time (and none in gaps), the next/previous lookups give the first position of the first segment at or after and the last position before the first segment after the time, and the overlap query is true exactly when no segment intersects the interval. (What the queries answer at the recorded maximum itself, and for the position one past the last, is left open.)',
 ['inputs','histories'],'every index, every position, every time and interval',
 'Tests query a few points of one index of two segments.',
 ['vsri/src/lib.rs'],[('queries','vsri/src/lib.rs Vsri::{get_time,get_sample,get_next_sample,get_previous_sample,is_empty,get_all_timestamps}')])
p('S16','Every accepted time adds exactly one sample position to the index',
 'Adding a time below the current maximum is refused and changes nothing; any other time is accepted, becomes the maximum, and grows the number of indexed samples by exactly one: the last segment is extended only if the time is the next point of its line (up to the integer rounding of the rate: a time before the point after that counts as this one), a segment with a single sample takes its rate from the second, otherwise a segment starting at the next position is opened.',
 ['histories','inputs'],'every index state and every time',
 'Tests add a handful of times; repeated times, rate changes and gaps depend on the history.',
 ['vsri/src/lib.rs'],[('update','vsri/src/lib.rs Vsri::update_for_point'),('segment creation','vsri/src/lib.rs create_fake_segment, generate_segment, fits_segment, is_fake_segment')])
p('S17','The sample container gives back exactly the samples that were put in',
 'A container built from a slice or by adding samples one at a time holds all of them in order in chunks of at most 2048 with the count recorded, writing it emits the twelve byte header followed by the serialised content, and reading checks both header marks, skips exactly the header and returns all chunks concatenated; anything else is refused.',
 ['inputs','histories'],'every sample sequence of every length, every file content',
 'Tests use short sequences; chunk boundaries and malformed headers are hardly covered.',
 ['wavbrro/src/wavbrro.rs','wavbrro/src/read.rs','wavbrro/src/write.rs'],
 [('chunking','wavbrro/src/wavbrro.rs WavBrro::{from_slice,add_sample,get_samples}'),('header','wavbrro/src/{read,write}.rs')])
p('S18','Untrusted bytes cannot cause undefined behaviour',
 'No file content or sample value can make the programs execute undefined behaviour: the workspace uses no unsafe code or unchecked operations, and every deserialisation of file content goes through a validating decoder.',
 ['inputs'],'every file content and every sample value',
 'Undefined behaviour need not show in a test run, and tests only feed well formed files.',
 ['atsc/src','csv-compressor/src','tools/src','vsri/src','wavbrro/src'],
 [('safe Rust only','whole workspace'),('validated archive access','wavbrro/src/wavbrro.rs WavBrro::from_bytes')])
p('S19','Reconstructed values stay between the minimum and maximum of the frame',
 'For the interpolating codecs and the frequency codec no reconstructed value is below the minimum or above the maximum recorded for the frame, and those are the minimum and maximum of the samples that were compressed (for the frequency codec rounded to single precision).',
 ['inputs','configurations'],'every frame of finite samples, every bound',
 'Overshoot of the interpolation depends on the data; tests compare a few vectors.',
 [A+'compressor/fft.rs',A+'compressor/polynomial.rs',A+'utils/mod.rs'],
 [('limits at reconstruction',A+'compressor/fft.rs FFT::round, '+A+'utils/mod.rs round_and_limit_f64'),('recorded limits',A+'compressor/polynomial.rs polynomial*, '+A+'compressor/fft.rs fft*, '+A+'optimizer/utils.rs DataStats::new')])
p('S20','Decompression returns exactly as many samples as were compressed',
 'A frame records the number of samples given to it, and every decoder returns exactly that many values for every payload its encoder can produce, so a decompressed stream has the length of the cleaned input.',
 ['inputs','configurations'],'every codec, every frame length, every bound',
 'Tests use a few lengths, mostly powers of two; padding arithmetic depends on the length.',
 [A+'compressor',A+'frame/mod.rs'],
 [('sample count',A+'frame/mod.rs CompressorFrame'),('decoders',A+'compressor/*.rs to_data')])
p('S21','Positions, steps and counts are never truncated when they are stored',
 'No sample position, frequency position, step, count or index that is stored in a file passes through an integer type that cannot hold every value it can take for a frame of the maximum size.',
 ['inputs'],'every frame up to the maximum frame size',
 'Truncation only shows in frames larger than those of the tests.',
 [A+'compressor/fft.rs',A+'compressor/polynomial.rs',A+'compressor/rle.rs',A+'data.rs','wavbrro/src/wavbrro.rs'],
 [('stored position types',A+'compressor/{fft,rle,polynomial}.rs'),('frame limit',A+'optimizer/mod.rs MAX_FRAME_SIZE')])
p('S22','Encoder and decoder derive the same grid from the frame length',
 'The padded transform length, padding split and mirrored positions used by the frequency decoder are those its encoder used for the same frame length, and the interpolating decoders place the stored points at exactly the positions the encoder sampled them from, in every mode of compression.',
 ['inputs','configurations'],'every frame length up to the maximum, every number of stored points, every mode',
 'Off-by-one or mode dependent differences in derived lengths show only for particular lengths.',
 [A+'compressor/fft.rs',A+'compressor/polynomial.rs',A+'utils/mod.rs'],
 [('padding',A+'compressor/fft.rs gibbs_sizing, to_data'),('sampling positions',A+'compressor/polynomial.rs compress_hinted, get_positions')])
p('S23','Samples and index advance together in the CSV compressor',
 'Each CSV row contributes one value to the container and one time to the index, in the same order, or ingestion stops with an error; on the way back the value at position i is paired with the time the index gives for position i.',
 ['inputs','histories'],'every sequence of rows',
 'Tests use a handful of rows in one segment.',
 ['csv-compressor/src/metric.rs','csv-compressor/src/main.rs'],
 [('lock-step append','csv-compressor/src/metric.rs Metric::append_samples'),('pairing','csv-compressor/src/metric.rs Metric::get_samples')])
p('S24','WAV conversion joins channels in order and keeps every non-NaN value',
 'Converting a WAV file joins each group of channel samples, least significant first, into one 64 bit float, and writes every joined value that is not NaN in file order to the sibling container file; a file without the two WAV marks or an unreadable one is refused without writing anything.',
 ['inputs'],'every WAV file',
 'There is no test of the converter.',
 ['tools/src/bin/wav2wbro.rs'],
 [('joining','tools/src/bin/wav2wbro.rs read_metrics_from_wav, join_u16_into_f64'),('conversion','tools/src/bin/wav2wbro.rs main')])
p('S25','A bounded interpolation ends within the bound or with every sample stored',
 'Compressing a frame with the polynomial or the inverse distance codec under an error bound ends only when the measured error was found within the bound (at the tenth of a percent the search works with), when the data is constant, or when every sample of the frame is stored; it never gives up in between, and it ends after a bounded number of rounds.',
 ['inputs','configurations'],'every frame length, every sample, every accepted bound, both interpolating codecs',
 'Tests end in the first rounds on a few short vectors; the later rounds and the give-up branch are not reached.',
 [A+'compressor/polynomial.rs'],
 [('search','atsc/src/compressor/polynomial.rs compress_bounded'),('store everything','atsc/src/compressor/polynomial.rs compress_hinted')])
p('S26','Compressing and decompressing a frame of finite samples never panics',
 'Whatever the finite samples of a frame, their number, the codec, the error bound and the speed: compressing the frame and decompressing what was stored never stops with a panic. No index or slice runs outside its sequence, no position or length is subtracted below zero, nothing is divided by an empty count, no missing value is unwrapped.',
 ['inputs','configurations'],'every frame length from 1 to 131072, every finite sample, every accepted bound, every speed, all five codecs and automatic selection',
 'A panic needs a frame length at the edge of some rule of the code (one sample less than a trial window, two samples, a length one above a multiple); tests use a handful of lengths.',
 [A+'frame/mod.rs',A+'compressor/polynomial.rs',A+'compressor/fft.rs',A+'compressor/rle.rs',A+'optimizer/utils.rs',A+'utils/error.rs'],
 [('automatic selection',A+'frame/mod.rs compress_best'),('positions',A+'compressor/polynomial.rs compress_hinted, get_positions, polynomial_to_data, idw_to_data'),('spectrum',A+'compressor/fft.rs fft_trim, compress_bounded, to_data'),('statistics',A+'optimizer/utils.rs DataStats::new')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
