NOTE = ('All members of the stated bounded space are executed on the real code; expectations come from an independent '
        'reference encoder/decoder model written for this purpose (jx/), so a mistake shared by model and code would go unseen. '
        'Nothing is claimed beyond the bounds printed in the evidence.')
T_CS = ('explicit-state model checking of a bounded choice tree: a reference encoder enumerates codestreams with their expected '
        'result and every one is replayed on the real decoder')
UNIT = 'The unit tests use a few hand-made buffers and fake readers; '
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech)
    if 'na' not in kw:
        kw.setdefault('tech', T_CS); kw.setdefault('note', NOTE)
    d.update(kw); P.append(d)

prop('C01', 'Bit reader delivers exactly the bits of the stream',
 'Every read, skip and alignment operation of the bit reader returns the value defined by the bits at the current position, advances by exactly the bits it consumed, and reports an error when the stream ends early. The result does not depend on how the bits are split over operations.',
 ['inputs','histories'], 'all operation sequences over all short bit patterns and reader chunkings within the bounds',
 UNIT+'they never combine operations at every bit phase and end-of-stream position.',
 ['jxlio/bitreader.go'], [('bit cache and refill','jxlio/bitreader.go'),('variable-length integers','jxlio/bitreader.go')],
 tech='stateless model checking: exhaustive enumeration of operation sequences against a reference bit cursor, executed on the real reader')
prop('C02', 'The result does not depend on how the input reader chunks its data',
 'Decoding the same bytes through any conforming reader, whatever sizes its reads return and whether end of file comes with or after the last bytes, gives the same image or header as decoding from memory.',
 ['inputs','schedules'], 'all chunk-size patterns within the bounds for a corpus of generated and sample files',
 'Tests only use files and byte slices, which return full reads.',
 ['jxlio/bitreader.go','core/read_jxl_boxes.go'], [('refill loop','jxlio/bitreader.go'),('box reader','core/read_jxl_boxes.go')],
 tech='stateless model checking: exhaustive enumeration of reader behaviours (bounded deviations) on the real decoder')
prop('C03', 'Reader errors surface as errors',
 'When the underlying reader fails at any operation, decoding ends with an error (never a panic, a hang or a wrong image) unless the failing operation was not needed for the result.',
 ['fault_sequences'], 'an error injected at every read and seek of decodes of a corpus', 'No test injects reader faults.',
 ['jxlio/bitreader.go','core/jxl_decoder.go'], [('error propagation','jxlio/bitreader.go')], level='fault_enumeration',
 tech='exhaustive fault enumeration: a fault at every I/O operation of every corpus decode, on the real decoder')
prop('C04', 'Truncated files are rejected',
 'For every proper prefix of a valid file decoding returns an error: it neither panics, hangs, nor returns an image whose samples differ from the complete file.',
 ['crash_points'], 'every prefix length of a corpus of generated and sample files', 'Tests only decode complete files.',
 ['jxlio/bitreader.go','frame/Frame.go','entropy'], [('end of stream handling','jxlio/bitreader.go'),('section errors','frame/Frame.go')], level='fault_enumeration',
 tech='exhaustive enumeration of all truncation points, on the real decoder')
prop('C05', 'Container framing is transparent',
 'A codestream decodes to the same image and header whether it is bare, in one codestream box (with any legal size encoding) or split over partial codestream boxes, and regardless of which other boxes surround it.',
 ['inputs','configurations'], 'all box layouts within the bounds around a set of codestreams', 'Tests contain one or two container files.',
 ['core/read_jxl_boxes.go','core/jxl_codestream_decoder.go'], [('box parser','core/read_jxl_boxes.go')])
prop('C06', 'Entropy-coded integers decode to the values that were encoded',
 'For every legal entropy code (prefix or ANS, any context clustering, hybrid integer configuration and alphabet size) the decoder returns exactly the encoded symbol sequence and consumes exactly the bits of the code.',
 ['inputs','configurations'], 'all code shapes, distributions, cluster maps and integer configurations within the bounds',
 'Tests decode a few fixed streams; the space of code tables and configurations is combinatorial.',
 ['entropy'], [('prefix codes','entropy'),('ANS alias tables','entropy'),('hybrid integers and cluster maps','entropy')])
prop('C07', 'LZ77 back-references reproduce the referenced symbols',
 'With LZ77 enabled, every copy reproduces exactly the previously decoded symbols at the encoded distance (including the special two-dimensional distances and overlapping copies), in every context and up to the window size.',
 ['inputs','histories'], 'all literal/copy scripts, distances and parameters within the bounds', 'No test enumerates copy scripts; sample files reach a handful.',
 ['entropy'], [('LZ77 window','entropy'),('special distances','entropy')])
prop('C08', 'Modular predictors reconstruct every sample exactly',
 'For every predictor, including the self-correcting one with any parameters, a channel coded as residuals is reconstructed to exactly the original samples at every position, size and sample range.',
 ['inputs','configurations'], 'all predictors x channel shapes x small sample alphabets and boundary patterns within the bounds', 'Tests evaluate predictors on isolated fixed neighbourhoods.',
 ['frame/ModularChannel.go','frame/WPParams.go'], [('predictors','frame/ModularChannel.go'),('self-correcting predictor state','frame/ModularChannel.go')])
prop('C09', 'MA trees select the context the encoder meant',
 'For every meta-adaptive tree, each sample is decoded with the predictor, offset, multiplier and context of the leaf reached by the defined properties of its neighbourhood, whatever specialisations the decoder applies to the tree.',
 ['inputs','programs'], 'all trees up to a bounded size over all properties and thresholds within the bounds', 'Tests walk a few trees with fixed property vectors.',
 ['frame/MATree.go','frame/ModularChannel.go'], [('tree walk and compaction','frame/MATree.go'),('property computation','frame/ModularChannel.go')])
prop('C10', 'Modular transforms are inverted exactly',
 'For every chain of reversible colour transforms, palettes (with deltas and implicit colours) and squeezes, at the global or the group level, decoding returns exactly the samples before the transforms.',
 ['inputs','programs'], 'all transform chains up to a bounded length with their parameters and channel shapes', 'Tests invert single transforms on tiny fixed buffers.',
 ['frame/ModularStream.go'], [('inverse transforms','frame/ModularStream.go')])
prop('C11', 'Group tiling is invisible in the image',
 'How a frame is divided into groups, low-frequency groups and sections (group size, image size, channel shifts, local or global streams) does not change any decoded sample.',
 ['inputs','configurations'], 'all image sizes around group boundaries x group sizes x channel layouts within the bounds', 'Sample files cover a few sizes; boundary sizes are not enumerated.',
 ['frame/Frame.go','frame/PassGroup.go','frame/LFGroup.go'], [('group grid','frame/Frame.go'),('channel split','frame/ModularChannel.go')])
prop('C12', 'Section order in the file does not matter',
 'For every permutation of the sections of a frame announced in its table of contents, and every encoding of the table, the decoded image is the one of the unpermuted frame.',
 ['inputs'], 'all permutations of small section counts, bounded transpositions of larger ones, all size encodings', 'No sample file has a permuted table of contents that a test checks.',
 ['frame/Frame.go'], [('permutation decoding','frame/Frame.go'),('section readers','frame/Frame.go')])
prop('C13', 'Header fields are reported as coded, by every entry point',
 'Every field of the image header is reported exactly as coded, sizes beyond the limits of the codestream level are rejected, and parsing only the header agrees with the header of the fully decoded image.',
 ['inputs'], 'all headers within a bounded number of field deviations, all size forms with boundary sizes', 'Tests check a few headers; fields interact through optional-field layout.',
 ['bundle/image_header.go','bundle/extra_channel_info.go','colour'], [('size header','bundle/image_header.go'),('extra channel info','bundle/extra_channel_info.go'),('colour encoding','colour')])
prop('C14', 'Orientation is applied exactly',
 'For each of the eight orientations the decoded image, its dimensions and all of its channels are the stored samples moved exactly as the orientation defines.',
 ['inputs','configurations'], 'all orientations x image shapes x channel layouts x integer/float buffers within the bounds', 'Tests transpose one small matrix per orientation without the decoding pipeline.',
 ['core/jxl_codestream_decoder.go'], [('buffer transposition','core/jxl_codestream_decoder.go')])
prop('C15', 'Frames are composed as their blending information defines',
 'For every sequence of frames with crops, blend modes, clamping, reference slots and per-channel blending, the final image equals the sequential composition defined by the format, including the samples outside of the last frame.',
 ['histories','inputs'], 'all frame programs up to a bounded length over the blending parameters', 'Tests blend single frames with hand-set buffers; histories of reference slots are not enumerated.',
 ['core/jxl_codestream_decoder.go','frame/BlendingInfo.go','frame/FrameHeader.go'], [('blendFrame','core/jxl_codestream_decoder.go'),('reference slots','core/jxl_codestream_decoder.go')])
prop('C16', 'Extra channels keep their samples, type and resolution',
 'Extra channels of every type, bit depth, sub-sampling and order are returned with exactly their coded samples at image resolution, without affecting the colour channels.',
 ['inputs','configurations'], 'all extra channel layouts within the bounds', 'Sample files have one alpha or spot channel at full resolution.',
 ['frame/ModularStream.go','frame/Frame.go','core/jxl_image.go'], [('extra channel sizes','frame/ModularStream.go')])
prop('C17', 'Upsampling computes the defined interpolation',
 'For factors 2, 4 and 8, default or custom weights, and any frame or extra-channel size, each upsampled sample is the clamped 5x5 weighted sum of its mirrored neighbourhood, and the image has its nominal size.',
 ['inputs','configurations'], 'all sizes, factors and weight sets within the bounds', 'One sample file; weights and borders are not enumerated.',
 ['frame/Frame.go','bundle/image_header.go'], [('performUpsampling','frame/Frame.go'),('weight expansion','bundle/image_header.go')])
prop('C18', 'ICC profiles are reconstructed byte for byte',
 'For every ICC profile encoded with any of the format’s commands, the decoded profile equals the original byte for byte, and malformed encodings are rejected.',
 ['inputs','programs'], 'all command programs up to a bounded length over the command alphabet', 'One sample file carries a profile.',
 ['bundle/image_header.go','jxlio/bitreader.go'], [('GetDecodedICC','bundle/image_header.go'),('GetICCContext','bundle/image_header.go')])
prop('C19', 'XYB and YCbCr colour is converted as defined',
 'For XYB- and YCbCr-coded frames each output sample equals, within float tolerance, the colour conversion defined by the format for the coded values, matrix, bias and intensity target.',
 ['inputs','configurations'], 'a grid of coded values x opsin parameters x tone parameters within the bounds', 'Tests invert one matrix; the pipeline with custom parameters is not covered.',
 ['colour','core/jxl_codestream_decoder.go'], [('InvertXYB','colour'),('performColourTransforms','core/jxl_codestream_decoder.go')])
prop('C20', 'The result is independent of parallelism and scheduling',
 'For every degree of parallelism and every interleaving of the decoding goroutines the decoded image is identical, and so is the fact of failure for a defective file.',
 ['schedules','configurations'], 'all schedules within a preemption bound x parallelism settings for a corpus', 'Tests run under whatever schedule the runtime picks.',
 ['frame/Frame.go','util/buffer_pool.go'], [('LF group goroutines','frame/Frame.go'),('pass group workers','frame/Frame.go'),('inverse transform goroutines','frame/Frame.go')],
 level='exploration', tech='stateless exploration of thread interleavings under a controlled scheduler with a preemption bound, on the real code')
prop('C21', 'Decoding never deadlocks, races or leaks goroutines',
 'Under every interleaving a decode (alone or next to others) terminates, leaves no goroutine blocked behind, and no two goroutines access the same memory without synchronisation.',
 ['schedules'], 'all schedules within a preemption bound for a corpus of good and defective files', 'Tests run under whatever schedule the runtime picks, without the race detector.',
 ['frame/Frame.go'], [('channels and wait groups','frame/Frame.go')], level='exploration',
 tech='stateless exploration of thread interleavings under a controlled scheduler plus race detection on explored executions')
prop('C22', 'A decode does not depend on what was decoded before',
 'The result of decoding a file is the same in a fresh process and after any history of other decodes, successful or failed, in the same process; images returned earlier are not changed by later decodes.',
 ['histories'], 'all decode histories up to a bounded length over a corpus of files', 'Each test decodes once; pooled buffers are shared between decodes.',
 ['util/buffer_pool.go','frame/HFCoefficients.go','frame/Frame.go'], [('buffer pools','util/buffer_pool.go')],
 tech='stateless model checking of all decode histories up to a bounded length, on the real decoder')
prop('C23', 'Concurrent decodes do not affect each other',
 'Any number of images decoded at the same time by independent decoders in one process give the same results as decoded alone.',
 ['schedules'], 'pairs of files x interleavings of their decodes within the bounds', 'No test decodes concurrently.',
 ['util/buffer_pool.go'], [('buffer pools','util/buffer_pool.go')], level='exploration',
 tech='stateless exploration of interleavings of two decodes')
prop('C24', 'PNG output is valid and has the samples of the image',
 'The PNG written for a decoded image is a valid PNG with the image’s size, colour type, bit depth and profile, whose samples are those of the image within rounding.',
 ['inputs','configurations'], 'all image kinds (gray/colour, alpha, bit depths, integer/float, sizes) within the bounds', 'Tests write one PNG and do not compare samples.',
 ['core/png_writer.go'], [('PNG writer','core/png_writer.go'),('conversion of the samples','core/jxl_image.go'),('transfer functions','colour/transfer_function.go')])
prop('C25', 'PFM output is valid and has the samples of the image',
 'The PFM written for a decoded image has the right header and, bottom row first, the samples of the image.',
 ['inputs','configurations'], 'all image kinds and sizes within the bounds', 'No test reads back a PFM.',
 ['core/pfm_writer.go'], [('PFM writer','core/pfm_writer.go')])
prop('C26', 'Conversion to a Go image keeps size, colours and alpha',
 'Converting a decoded image to a standard Go image yields the same size and, within the rounding of the target depth, the same colours and alpha, and does not fail for any decodable image.',
 ['inputs','configurations'], 'all image kinds within the bounds', 'Tests only check that some conversions return an image.',
 ['core/jxl_image.go'], [('ToImage','core/jxl_image.go')])
prop('C27', 'The registered format works with the standard image package',
 'After importing the package, the standard library’s Decode and DecodeConfig recognise bare and container files and agree with the decoder’s own result.',
 ['inputs','configurations'], 'all container kinds, reader kinds and orientations within the bounds', 'Tests do not go through the standard library registration.',
 ['reader.go'], [('format registration','reader.go')])
prop('C28', 'Malformed input never panics, hangs or exhausts memory',
 'For every corruption of a file, decoding ends with an image or an error within bounded time and memory; it never panics or crashes the process.',
 ['inputs','fault_sequences'], 'all single-byte and bounded multi-field corruptions of a corpus of small files', 'Tests feed a few broken inputs.',
 ['entropy','frame','bundle','core'], [('input validation','entropy'),('input validation','frame')], level='fault_enumeration',
 tech='exhaustive enumeration of corruptions of generated files, executed on the real decoder')
prop('C29', 'VarDCT frames reconstruct the image defined by their coefficients',
 'For lossy frames, every transform type, quantisation table, chroma-from-luma factor and block layout yields, within float tolerance, the samples defined by the format for the coded coefficients.',
 ['inputs','configurations'], 'all transform types x layouts x parameters within the bounds', 'Tests check single transforms and decode sample files without an oracle.',
 ['frame/HFCoefficients.go','frame/PassGroup.go','frame/HFGlobal.go'], [('dequantisation','frame/HFCoefficients.go'),('inverse transforms','frame/PassGroup.go')])
prop('C30', 'Restoration filters compute the defined result',
 'The Gabor-like and edge-preserving filters yield, within float tolerance, the samples defined by the format for every image size and parameter set, across group boundaries.',
 ['inputs','configurations'], 'all sizes x filter parameters x contents within the bounds', 'Tests run the filters on one or two buffers.',
 ['frame/Frame.go','frame/RestorationFilter.go'], [('performGabConvolution','frame/Frame.go'),('performEdgePreservingFilter','frame/Frame.go')])
prop('C31', 'Sample buffers convert between integer and float without loss',
 'Converting a sample buffer between integer and float form keeps every in-range value (round trip exact), clamps others, and copies and comparisons of buffers are faithful.',
 ['inputs'], 'all values of small depths and boundary values of large ones', 'Tests convert a few values.',
 ['image/imagebuffer.go'], [('buffer casts','image/imagebuffer.go')])
prop('C32', 'Progressive passes together give the complete image',
 'However the channels of a modular frame, or the coefficients and extra channels of a VarDCT frame, are distributed over progressive passes, decoding all passes yields the image of the single-pass frame (for modular data exactly, for coefficients that of their shifted sum).',
 ['inputs','configurations'], 'all pass layouts (numbers, shifts, downsampling brackets) x channel layouts and frame encodings within the bounds', 'No sample file has several passes that decode.',
 ['frame/Pass.go','frame/PassesInfo.go','frame/Frame.go','frame/PassGroup.go','frame/HFCoefficients.go'], [('pass brackets','frame/Pass.go'),('summing of coefficients','frame/HFCoefficients.go')])
prop('C33', 'A decoded image and its copies hold exactly the samples put into them',
 'After any history of copying an image, setting or changing samples through the accessors and producing outputs (PNG, PFM, Go images), every image has exactly the samples it was given, independent of its copies, its properties are unchanged, an output equals that of an image decoded with these samples, and channel indices out of range are errors.',
 ['histories','inputs'], 'all operation histories up to a bounded length over an image and its copies', 'Tests call single accessors on fresh images.',
 ['core/jxl_image.go','image/imagebuffer.go'], [('copies','core/jxl_image.go'),('accessors','core/jxl_image.go')],
 tech='explicit-state enumeration of all operation histories up to a bounded length against a plain model, replayed on the real image type')
prop('C34', 'Pooled matrices are exclusive, zero and of the shape asked for',
 'For every history of gets and returns by any number of concurrent users, a matrix handed out by the pools has exactly the shape asked for, contains only zeros and shares no storage with a matrix in use, and the metrics count every matrix handed out, as a hit exactly when it had been returned before.',
 ['histories','schedules'], 'all histories of a few users up to a bounded length, their interleavings and every item the pool may hand out', 'Tests get and return one matrix at a time, and one stress test samples schedules.',
 ['util/buffer_pool.go'], [('matrix pools','util/buffer_pool.go')], level='exploration',
 tech='stateless exploration of operation histories and thread interleavings under a controlled scheduler and a controlled pool, on the real code')
prop('C35', 'The command line converter writes the image or says that it failed',
 'For every input file, state of the output path and write error, jxltopng ends with status 0 exactly when the output file is a complete PNG with the pixels and profile the library gives for the input; otherwise it ends with a message and another status, and it changes neither the input nor, when the input cannot be decoded, an existing output.',
 ['inputs','fault_sequences'], 'input files, truncations, states of the output path and sizes at which writing fails, within the bounds', 'No test runs the converter.',
 ['tools/jxltopng/main.go'], [('command line converter','tools/jxltopng/main.go')], level='fault_enumeration',
 tech='exhaustive enumeration of inputs, output states and write faults on the real program')
