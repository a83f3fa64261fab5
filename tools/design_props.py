D = {}
D['C01'] = '''All operation sequences up to depth 3 (thorough: 4) over the bit reader's operations (reads of every width class, skips, peeks, alignments,
variable-length integers, half floats) at every bit phase over several contents, ended at every byte; oracle: a bit cursor over the
byte array. All 65536 half floats, all U64 forms. Reader chunk patterns are enumerated too.'''
D['C02'] = '''The decoder reads from a scripted `io.ReadSeeker` whose behaviour is a choice at every call: everything, one byte, nothing yet (once), all but one, half, end of file with
the last bytes. Enumerated on the real decoder: six uniform behaviours, every chunk size up to 17 (thorough 64), every single deviation at every read call (pairs in the thorough
tier), for decode, header and ParseOnly on all corpus and container files. Oracle: the result from memory (whose correctness other checks decide).'''
D['C03'] = '''Fault enumeration: the k-th read fails, for every k, with several errors, after none, some or nearly all bytes, once or for good; the k-th seek fails likewise; the thorough tier
adds pairs of faults. The operation must return an error, or exactly the result without the fault. A panic, `nil, nil`, a hang or a different image is a violation.'''
D['C04'] = '''Every prefix length of every corpus and container file (thorough: sample files too), for decode, header and ParseOnly. A prefix gives an error or exactly the full result;
ParseOnly may not accept a prefix that does not decode.'''
D['C05'] = '''Own container writer: every combination of codestream (including ones shorter than the 12 byte signature), box size encodings (32 bit, 64 bit, to the end of the file), sets of
surrounding boxes (jxll, Exif, unknown, empty, 64 bit sized, brob …) and all splits into up to k jxlp parts at every byte (empty parts included); result and header must equal those
of the bare codestream.'''
D['C06'] = '''The encoder of `jx/entropy.go` enumerates prefix codes (all Kraft-complete code length vectors up to 5 symbols, simple
and complex forms), ANS distributions (all forms: single, pair, flat, general with every shift; all omit positions; run-length codes), every
alphabet log size, hybrid integer configurations x boundary values, all set partitions of up to 4 contexts (5 thorough) in each cluster map coding.
Symbols and the final bit position are compared.'''
D['C07'] = '''All literal/copy scripts up to a bounded length, every special distance code x multiplier, overlapping copies, copies around the
2^20 window edge, minimal lengths/symbols and length configurations. Oracle: a plain growing array.'''
D['C08'] = '''All predictors (14) x all images over a 3-letter alphabet for tiny shapes, boundary patterns and sample ranges up to 2^31 for larger ones,
self-correcting predictor parameters. Oracle: the original image (the reference encoder computes residuals).'''
D['C09'] = '''All one- and two-level trees over all properties (incl. previous-channel ones), thresholds around the taken values, leaves with
offsets and multipliers, specialisable chains (channel, stream, y), tree coders. Oracle: reference tree walk.'''
D['C10'] = '''All chains up to length 2 (3 thorough) of RCTs (42 types), palettes (deltas, implicit colours, predictors), squeezes (default and explicit),
at global and group level; channel counts and sizes around the edge cases. Oracle: samples before the forward transforms.'''
D['C11'] = '''Image sizes around every group and LF-group boundary x group size shifts x layouts x squeeze/local transforms x worker counts.'''
D['C12'] = '''All permutations of 5 and 6 sections (7 thorough), every entropy coding of the Lehmer code, explicit trailing zeros, hundreds of sections, size selectors, two permuted frames.'''
D['C13'] = '''All headers with at most 2 (3 thorough) deviating fields among all header fields, with all selectors of each field, all size forms;
oracle: the fields written. Both entry points (parse only and full decode) are compared.'''
D['C32'] = '''All pass structures (number, downsampling brackets, last passes) up to 4 passes (5 thorough) over squeezed images and over VarDCT frames with 0..1 (squeezed) extra channels; oracle: the encoded samples, for VarDCT the reference reconstruction of the summed coefficients.'''
D['C14'] = '''All 8 orientations x image shapes (1x1 to group-crossing) x channel layouts x depths (int and float), several frames, crops and extra channels;
oracle: index mapping on the encoded samples.'''
D['C15'] = '''Frame programs (up to 3 frames; 4 thorough) over crops (inside, crossing, outside), blend modes x clamp x sources x reference slots x
per-extra-channel blending, reference-only frames, save-before-colour-transform, padding. Oracle: a float64 sequential compositor.'''
D['C16'] = '''All extra channel types x depths (1..32 bit int, half/single float) x dimension shifts x orders x names x alpha association, up to 3 channels.'''
D['C17'] = '''Factors 2/4/8, sizes 1..20ish around borders and groups, default and custom weights (including negatives), frame and extra-channel upsampling,
non-positive neighbourhoods. Oracle: 5x5 weighted sum with mirrored borders in float64; the default tables are re-derived from the specification.'''
D['C31'] = '''Every value of every depth up to 12 bits and boundary values up to 31 bits, in both directions; clamping of every special float; all
operation sequences of depth 4 over two buffers against a plain model (casts, clamp, copies, equality, aliasing).'''
D['C29'] = '''A reference VarDCT encoder (`jx/vardct.go`: LF groups, HF metadata, block contexts, coefficient orders, dequantisation matrices, passes) and a
float64 decoder model (`checks/ref_vardct.go`, inverse DCTs written as direct cosine sums) enumerate: every transform type x every single coefficient position;
all tilings of a region by pairs of types; block context maps with all threshold counts; custom coefficient orders (and used-order masks); every encoding mode of the
17 dequantisation matrices; global scale/LF quantiser/multiplier extremes; chroma-from-luma factors and tile alignments; pass structures; frame sizes around group and LF group
boundaries; VarDCT frames with modular extra channels. Pixels must agree to 2e-5 of the largest one. Adaptive LF smoothing is pinned wrong by the suite (known finding): a frame with smoothing
has to agree either with the definition or with the modelled wrong formula, the latter is reported as known finding, anything else is a violation.
Assumptions: the default 128x256 matrices are compared with the table of libjxl as transcribed; the chroma-from-luma factor of a block spanning two tiles
is the factor of the tile of its origin (as the decoder does; libjxl never writes anything else).'''
D['C30'] = '''Modular RGB frames (exact inputs) enumerate impulses at every position of every small size, all sizes around 1..10 and strips, Gabor weight sets, EPF
iterations x sigma x pass scales x border scale x contents x workers, the all-default bundle, extra channels, upsampling; VarDCT frames enumerate sharpness x lut x
multiplier maps, block types, group and LF group boundaries. Oracle: float64 filters written as sums with mirrored access. Known finding: the decoder never reads
`epf_weight_custom` (pinned by fakes in the suite), so each explicit bundle with EPF is decoded twice when needed: as defined and, failing that, without the flag; only agreement
of the second counts as the known finding, everything else is a violation. Custom channel scales cannot be reached on the current tree.'''
D['C19'] = '''XYB modular frames carry grids of 640 and 100 coded triples under every pair (thorough: every combination) of deviations among opsin matrices/biases,
intensity targets, 20 target colour spaces (white points D65/E/DCI/custom x sRGB/BT.2100/P3/custom primaries), LF dequantisation, bit depth, extra channels; gray; VarDCT XYB frames
enumerate the X/B quantiser scales, chroma-from-luma, matrices; all-default image and frame headers over group-crossing sizes after preceding frames; LF frames of one and
two levels, modular and VarDCT; YCbCr modular (full and subsampled) and VarDCT with all 64 upsampling mode triples; XYB/YCbCr frames blended over frames of either coding.
Oracle: a float64 colour model (cube root biases, Bradford adaptation, primaries to XYZ) with per-sample error magnitudes.'''

D['C20'] = '''The synchronisation of the real code (go statements, channels, select, sync, sync/atomic) is rewritten by `cmd/instr` (type-checked source rewriting, a build
overlay; /repo is untouched) onto the controlled scheduler `mcrt`: one goroutine runs at a time, every synchronisation operation is a decision point, pooled items are handed out by
choice. Every schedule within a bound of deviations from three default orders (run on, newest first, round robin) is executed on the real decoder for the files of the shared corpus
(`checks/corpus.go`: modular and VarDCT, several groups, LF groups, passes, filters, blending, damaged files failing in one or several goroutines) and worker counts; image hash or
fact of failure must equal that of the default order. If the tree cannot be rewritten (constructs the rewriter does not know), the check falls back to free-running executions and
says so. Why tests cannot: they see one schedule. Cost: modular decodes take 0.3 ms, VarDCT ones 70 ms.'''
D['C21'] = '''Same machinery: the scheduler knows what every goroutine waits for, so a deadlock, a goroutine blocked for ever after the decode returned, a panic in a goroutine and
endless scheduling are observed directly, for every schedule within the bound. Races: the same executions in a race-detector build in which the scheduler's own hand-overs are hidden
(`RaceDisable`) and only the happens-before edges of the modelled primitives are reported, so that a race shows in any order that reaches both accesses; files alone and two decodes
at the same time, in fresh processes (first use of lazily created shared state included, with one deviation).'''
D['C22'] = '''Every history of 2 (thorough 3, on a subset 4) operations (decode with 1 or several workers, parse only, write PNG/PFM/convert) over the corpus is executed in a
fresh process with collection off and one processor; every result must equal that of the operation in a fresh process of its own, and images returned earlier must hash the same at
the end. Pooled buffers come from the controlled pool, which hands out the newest or the oldest item.'''
D['C23'] = '''Two (or three) decodes as goroutines under the same scheduler: all ordered pairs of the corpus files within the bounds, three default orders, both pool orders, one
deviation for the modular ones; each decode must deliver what it delivers alone.'''
D['C18'] = '''`jx/icc.go` builds encoded profiles from command programs (header prediction, tag list with all codes and flags, insert, shuffle 2/4, predict with every
width/order/stride, XYZ, type strings) and knows the profile they stand for. Every size 0..400, every tag sequence and every main command sequence within the bounds must decode
to exactly that profile, twice. Corruptions (truncations, every byte to every value, insertions, deletions) are judged by a second, reference interpreter: accepted exactly, or rejected with an
error. Whole files put the stream through every entropy coder and clustering of the 41 contexts.'''
D['C24'] = '''All kinds of images (integer depths 1..31 x sets of extra channels with first/second/premultiplied/float alpha x in-range or wild samples; float formats; every white point x
primaries x transfer function x intensity target, XYB or not; ICC profiles; orientations x sizes; corpus files with several frames, groups and VarDCT) are decoded and written. A strict PNG
parser (chunk order, CRCs, filters, exact data size) reads the file back; every sample must be the decoded one converted to the colour space the PNG declares (sRGB, cICP or the profile), computed
in float64 with an error bound per sample. A write error is injected at every call of the writer (complete and partial writes) and must be reported. All sequences of up to 3 (4) outputs
on one image: each must equal that of a fresh image and leave the image alone.'''
D['C25'] = '''The same image kinds, faults and sequences with the PFM writer; samples are read back in either byte order and must equal the decoded ones.'''
D['C26'] = '''The same image kinds and sequences through `ToImage` (all pixels compared as non-premultiplied colours) and `ChannelToImage` of every channel.'''
D['C27'] = '''Image kinds x 6 wrappings x 5 kinds of readers through `image.Decode`/`image.DecodeConfig`, every truncation, the corpus with its damaged files: same pixels as `ToImage`,
same size and colour model in the configuration, failure exactly when the decoder fails.'''
D['C28'] = '''Fault enumeration on generated files (one per coding tool, headers with every field used, ICC profile, permuted sections, containers): every flipped, removed and inserted bit,
every cut with several continuations, runs of equal bits, byte values, pairs of flips in the headers, all values of the first bits of both headers; each damaged file is decoded by the real
decoder (and through the other entry points), its channels are read and all outputs are produced. Workers are processes with a limit on address space and time; a crash in any goroutine, a
hang or an exhausted memory ends the worker and is attributed to the damaged file and confirmed alone.'''
D['C33'] = '''All histories of 3 operations (4 thorough) over an image and up to 3 copies: copies with and without samples, setting a channel, changing one sample in place, four
outputs; 6 kinds of images (grey/RGB, 8..16 bit, float, extra channels, ICC). Oracle: plain matrices, and for outputs a file encoded with the modelled samples and decoded afresh. All accessors with out-of-range indices.'''
D['C34'] = '''Users (1 to 3 goroutines) run all scripts of gets, returns (oldest, newest) and returns of matrices made elsewhere over two shapes of the four pools, on the controlled scheduler and with
the controlled pool, which may hand out the newest, the oldest or no item; shapes used before or new (creation of the pool). Every matrix is filled with a value of its own after its shape and zeros were
checked, and checked again after every operation; the metrics must count what happened, which is known from the identity of the rows. Scripts that create pools also run in the race build.'''
D['C35'] = '''The converter is built from the tree and run in a scratch directory for every corpus file and 100 image kinds, with the output absent or existing, in a missing directory, a
directory or on a full device; for 5 images with a write fault (`RLIMIT_FSIZE`) at every size (quick: every 7th) and with every truncation of the input; and with all combinations of
arguments. The exit status must say whether the output is a complete PNG with the pixels and the profile of the library (which C24 and C26 judge).'''
