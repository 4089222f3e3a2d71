import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]
p("C01","Adaptive binary arithmetic coding is lossless",
 "For every sequence of binary decisions coded with adaptive probabilities, the arithmetic decoder fed with the words the encoder emitted returns exactly the same decisions and leaves every probability model in the same state as the encoder. The model state stays inside its valid range and the coding interval never becomes empty.",
 I,"all bit sequences of any length, all 8-bit probabilities, all reachable probability-model and coder states",
 "The tests check a few average-case probability sequences; carries, interval collapse at the 16-bit boundary and the renormalisation of the counters need specific low/high/prob combinations out of 2^72.",
 ["c/common/distributions.h","c/dec/arith_decode.h","c/enc/brunsli_encode.cc","c/enc/state.h","c/dec/brunsli_input.h"],
 [("interval split, renormalisation and flush","c/enc/brunsli_encode.cc DataStream::AddBit, FlushArithmeticCoder"),("mirror split and refill","c/dec/arith_decode.h BinaryArithmeticDecoder::ReadBit"),("probability adaptation","c/common/distributions.h Prob::Add")],
 ["decoded bits","probability state","words consumed"])
p("C02","ANS symbol coding is lossless and self-checking",
 "For every distribution whose frequencies add up to the table size and every symbol with non-zero frequency, decoding a state produced by encoding that symbol returns the symbol and the encoder's previous state, consuming exactly the words the encoder emitted. The decoder's slot table is total and exactly partitions the slots according to the frequencies, frequencies with a different total are refused, and an unmodified stream ends in the expected final state.",
 I,"all coder states, all distributions over 18 symbols with total 1024, all symbols",
 "No test exercises the ANS layer alone; the state is 32 bits and the renormalisation threshold depends on the frequency.",
 ["c/enc/ans_encode.h","c/enc/ans_encode.cc","c/dec/ans_decode.h","c/dec/ans_decode.cc","c/common/ans_params.h"],
 [("push","c/enc/ans_encode.h ANSCoder::PutSymbol"),("pop","c/dec/ans_decode.h ANSDecoder::ReadSymbol"),("tables","c/enc/ans_encode.cc ANSBuildInfoTable; c/dec/ans_decode.h ANSDecodingData::Init")],
 ["decoded symbols","coder state","final-state check"])
p("C03","Histogram normalisation and serialisation round-trip",
 "For every symbol histogram, the normalised frequencies add up to the table size, every symbol that occurs keeps a non-zero frequency, and the stored form of the normalised frequencies reads back as exactly the same frequencies with the same number of bits consumed. Any stored form the reader accepts has frequencies that add up to the table size.",
 I,"all histograms over 18 symbols; all stored bit strings",
 "Only the histograms that the two sample files produce are ever normalised and stored.",
 ["c/enc/histogram_encode.cc","c/dec/histogram_decode.cc","c/common/histogram.cc","c/common/histogram.h"],
 [("normalise","c/enc/histogram_encode.cc NormalizeCounts/RebalanceHistogram"),("store","c/enc/histogram_encode.cc EncodeCounts"),("load","c/dec/histogram_decode.cc ReadHistogram")],
 ["frequencies","bits consumed"])
p("C04","Bit-level and variable-length integer codes are inverse pairs",
 "Every value written with any of the bit-level or variable-length integer writers (bit packing, bounded and unbounded varints, base-128 lengths in padded or minimal form, small-integer codes, raw side-channel bits) is read back unchanged by the matching reader, which stops exactly where the writer stopped. Writers never alter bits that were already written, and readers report failure when the input ends early rather than inventing data.",
 I,"all values in range, all bit offsets, all buffer lengths and truncation points",
 "The bit reader test samples a handful of values; the writers and the varint pairs have no direct test.",
 ["c/enc/write_bits.h","c/dec/bit_reader.h","c/dec/bit_reader.cc","c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc","c/dec/brunsli_input.h"],
 [("bit packing","c/enc/write_bits.h WriteBits; c/dec/bit_reader.h"),("varints","c/enc/brunsli_encode.cc EncodeVarint/EncodeLimitedVarint/EncodeBase128; c/dec/brunsli_decode.cc DecodeVarint/DecodeLimitedVarint/DecodeBase128"),("raw bits","c/enc/brunsli_encode.cc DataStream::AddBits; c/dec/brunsli_input.h BitSource")],
 ["decoded value","bits consumed","health flag"])
p("C05","Coefficient orders and permutation codes round-trip",
 "Every permutation of the 64 coefficient positions (with the DC position first) survives storing and loading as a coefficient order, and the loader only ever produces permutations, refusing everything else. The same holds for the code that transmits a set of distinct byte values one at a time: each removal is inverted exactly, and a code outside the remaining range or an unknown value is refused.",
 I,"all permutations; all stored bit strings; all code sequences",
 "The Lehmer-code test covers random permutations of one kind; rejection of invalid codes and the skip-zero-span storage are not tested.",
 ["c/common/lehmer_code.h","c/common/lehmer_code.cc","c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc"],
 [("Lehmer code","c/common/lehmer_code.cc"),("permutation coder","c/common/lehmer_code.h PermutationCoder"),("order storage","c/enc/brunsli_encode.cc EncodeCoeffOrder; c/dec/brunsli_decode.cc DecodeCoeffOrder")],
 ["decoded permutation","accept/reject"])
p("C06","Prediction and context selection are total, bounded and shared",
 "For every neighbourhood of already coded values and every quantisation table, the predictors and context selectors yield an index inside the model tables they select from, without arithmetic overflow or out-of-range access. The value they yield depends only on data that the decoder already has when it needs it, so encoder and decoder select the same model for every coded decision.",
 I,"all neighbour values in the coefficient range, all positions, all quantisation tables",
 "The context test covers two weighted averages; table bounds and the edge rows/columns are only reached by whole images.",
 ["c/common/context.h","c/common/context.cc","c/common/predict.h","c/common/predict.cc","c/dec/brunsli_decode.cc","c/enc/brunsli_encode.cc"],
 [("contexts","c/common/context.h"),("tables","c/common/context.cc"),("DC prediction","c/common/predict.cc")],
 ["context index","predicted value"])
p("C07","Coded coefficient blocks are reproduced exactly",
 "For every block of quantised coefficients in the representable range and every context, the block decoder reproduces exactly the block that was encoded, sign, magnitude and position of every coefficient included, and the count of non-zero coefficients. A coefficient outside the representable range makes encoding fail instead of being altered.",
 I,"all 64-coefficient blocks, all coefficient values, all coefficient orders and contexts",
 "A block has 64 coefficients of 12 bits each; tests only see the blocks of small sample images.",
 ["c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc","c/common/constants.h"],
 [("number of non-zeros tree","EncodeNumNonzeros / DecodeNumNonzeros"),("magnitude binarisation","EncodeDC, EncodeAC / DecodeDC, DecodeAcBlock"),("range check","c/enc/brunsli_encode.cc")],
 ["decoded coefficients","encoder status"])
p("C08","Quantisation tables are reproduced exactly",
 "For every set of quantisation tables with non-zero entries of 8 or 16 bits, the stored form reads back as exactly the same tables, table selectors and precisions. The decoder never accepts a table containing a zero or an entry wider than 16 bits.",
 I,"all quantisation tables (8 and 16 bit), all assignments of tables to components; all stored bit strings",
 "The one unit test samples the prediction for a few quality factors; residual coding of arbitrary tables is untested.",
 ["c/common/quant_matrix.cc","c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc"],
 [("template and scaling","c/common/quant_matrix.cc FillQuantMatrix, FindBestMatrix"),("residuals","c/enc/brunsli_encode.cc EncodeQuantTables; c/dec/brunsli_decode.cc DecodeQuantDataSection")],
 ["decoded table entries","accept/reject"])
p("C09","JPEG structure (Huffman tables, scans, markers, padding) is reproduced exactly",
 "Every legal list of Huffman code definitions, scan descriptions with their progressive parameters, restart settings, extra zero runs, marker order, inter-marker bytes and padding bits stored by the encoder is read back identically by the decoder. Structure that exceeds the format's limits is refused by both sides instead of being truncated.",
 I,"all Huffman code definitions, scan scripts, marker sequences and padding bit strings",
 "The sample files contain one baseline scan script with standard tables; the stored structure language is far larger.",
 ["c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc"],
 [("Huffman code storage","EncodeHuffmanCode / DecodeHuffmanCode"),("scan storage","EncodeScanInfo / DecodeScanInfo"),("auxiliary data","EncodeAuxData / DecodeAuxDataSection")],
 ["decoded structure","accept/reject"])
p("C10","Metadata is reproduced byte for byte",
 "Every application segment, comment and tail of a JPEG is reproduced byte for byte, whether or not it matches one of the built-in templates, and independently of how the compressed metadata bytes are cut into pieces when they are processed. A template short form is only produced for a segment it expands back to exactly.",
 ["inputs","histories"],"all marker contents, lengths and chunkings of the metadata stream",
 "Template matching has wild-card bytes and four short forms; tests see two or three segments and a single chunking.",
 ["c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc","c/common/constants.h"],
 [("template short forms","c/enc/brunsli_encode.cc TransformApp*Marker; c/dec/brunsli_decode.cc GenerateApp*Marker"),("metadata state machine","c/dec/brunsli_decode.cc ProcessMetaData")],
 ["reconstructed marker bytes"])
p("C11","JPEG writing inverts JPEG parsing",
 "Whenever the JPEG parser accepts a file, writing the parsed representation again yields the original bytes: entropy-coded data of baseline and progressive scans (including refinement, end-of-band runs and restarts), byte stuffing, padding bits, marker segments and trailing bytes. Coefficients coded and re-coded with any valid Huffman tables keep their value, and the code tables that writer and parser derive from the same definition describe the same prefix code.",
 I,"all JPEG files the parser accepts; all coefficients, Huffman definitions and bit positions",
 "Tests rebuild two small baseline files; progressive refinement and restart handling are only reached by crafted files.",
 ["c/enc/jpeg_data_reader.cc","c/enc/jpeg_huffman_decode.cc","c/dec/jpeg_data_writer.cc"],
 [("bit writer","c/dec/jpeg_data_writer.cc JpegBitWriter"),("block coding","c/dec/jpeg_data_writer.cc EncodeDCTBlock*; c/enc/jpeg_data_reader.cc DecodeDCTBlock, RefineDCTBlock"),("code tables","c/enc/jpeg_huffman_decode.cc BuildJpegHuffmanTable; c/dec/jpeg_data_writer.cc BuildHuffmanCodeTable")],
 ["written bytes"])
p("C12","Decoding arbitrary bytes is safe and bounded",
 "For every byte string, decoding terminates with success or an error status, never reads or writes outside its buffers, never overflows a signed computation or aborts the process, and never accepts dimensions, block counts or marker lengths above the format's limits. No allocation is larger than what the declared, limit-checked dimensions and the input length justify.",
 I,"all input byte strings",
 "The fuzz tests in the test-suite run an empty corpus; the unit tests decode two well-formed files.",
 ["c/dec/brunsli_decode.cc","c/dec/bit_reader.cc","c/dec/huffman_decode.cc","c/dec/huffman_table.cc","c/dec/context_map_decode.cc","c/dec/histogram_decode.cc","c/dec/jpeg_data_writer.cc"],
 [("limits","c/dec/brunsli_decode.cc DecodeHeader, UpdateSubsamplingDerivatives"),("bit reader health","c/dec/bit_reader.cc"),("table sizes","c/dec/huffman_table.cc, c/dec/context_map_decode.cc")],
 ["status","sanitizer reports"])
p("C13","Streaming decoding is independent of input and output chunking",
 "For every stream and every way of cutting it into input chunks and output buffers, the streaming decoder produces the same status and the same output bytes as decoding the whole stream at once. A decoder that asks for more input has lost no input and resumes exactly where it stopped.",
 ["inputs","histories"],"all byte strings, all sequences of input chunk lengths and output buffer lengths",
 "The streaming test uses two files with a few regular cut patterns.",
 ["c/dec/brunsli_decode.cc","c/dec/bit_reader.cc","c/dec/brunsli_input.h","c/dec/jpeg_data_writer.cc","c/dec/state_internal.h"],
 [("suspend/resume and input debt","c/dec/bit_reader.cc BrunsliBitReaderResume/Suspend"),("read-ahead buffer","c/dec/brunsli_decode.cc ChargeBuffer, LoadInput, UnloadInput"),("availability test","c/dec/brunsli_input.h WordSource::CanRead")],
 ["output bytes","final status"])
p("C14","The advertised output size bound is sufficient",
 "For every JPEG that the encoder accepts, encoding into a buffer of the advertised maximum size never writes outside the buffer and reports exactly the number of bytes written, which is at most the advertised maximum. The advertised bypass size likewise is never exceeded.",
 I,"all accepted JPEG images, including maximal coefficients, metadata and marker counts",
 "The bound is an estimate over worst-case symbol costs; typical images stay far below it.",
 ["c/enc/brunsli_encode.cc","c/enc/write_bits.h"],
 [("bound","c/enc/brunsli_encode.cc GetMaximumBrunsliEncodedSize, GetBrunsliBypassSize"),("writers","c/enc/write_bits.cc Storage")],
 ["bytes written","buffer overrun"])
p("C15","Bypass mode reproduces any input",
 "For every non-empty byte string, the bypass encoder produces a stream not longer than the advertised bypass size whose decoding succeeds and yields exactly that byte string. When the buffer offered is smaller than required the encoder fails.",
 I,"all byte strings of all lengths",
 "One test stores one short string.",
 ["c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc","c/dec/jpeg_data_writer.cc"],
 [("bypass section","c/enc/brunsli_encode.cc BrunsliEncodeJpegBypass; c/dec/brunsli_decode.cc DecodeOriginalJpg")],
 ["decoded bytes","encoded size"])
p("C16","Prefix codes and context maps round-trip",
 "For every symbol population the generated prefix code is complete and no longer than the allowed length, its stored form reads back as the same code, and every symbol written with it is read back unchanged. Every context map survives storing and loading, and the loader refuses maps that refer to a cluster outside the declared range.",
 I,"all symbol populations, all context maps, all stored bit strings",
 "The Huffman tests use chosen length vectors; context maps are only tested through the two sample files.",
 ["c/enc/huffman_tree.cc","c/enc/huffman_encode.cc","c/dec/huffman_decode.cc","c/dec/huffman_table.cc","c/enc/context_map_encode.cc","c/dec/context_map_decode.cc"],
 [("code construction","c/enc/huffman_tree.cc CreateHuffmanTree, ConvertBitDepthsToSymbols"),("code storage","c/enc/huffman_encode.cc; c/dec/huffman_decode.cc"),("lookup table","c/dec/huffman_table.cc BuildHuffmanTable"),("context map","c/enc/context_map_encode.cc; c/dec/context_map_decode.cc")],
 ["decoded symbols","decoded context map","accept/reject"])
p("C17","The container format is parsed strictly",
 "A stream is accepted only if it starts with the signature, its header fields appear at most once and are valid, no known section is repeated, mandatory sections precede the sections that need them, every section is consumed exactly to its declared end, and nothing follows the end. Sections with unknown tags are skipped without changing the result.",
 I,"all section sequences, tags, wire types and lengths",
 "Tests never feed malformed containers; acceptance of a bad container is invisible to round-trip tests.",
 ["c/dec/brunsli_decode.cc","c/common/constants.h"],
 [("section loop","c/dec/brunsli_decode.cc ParseSection, VerifySignature, DecodeHeader, DoProcessJpeg"),("skip","c/dec/brunsli_decode.cc SkipSection")],
 ["status for malformed containers"])
p("C18","Sink-based API reports every failure and never delivers wrong bytes silently",
 "The callback-based encode and decode functions return success only if the whole result was handed to the output callback and every callback call reported that it took all bytes it was given. On any parse, encode or decode failure they return failure.",
 ["inputs","fault_sequences"],"all inputs and all sequences of callback return values",
 "The C API test uses a callback that always succeeds.",
 ["c/enc/encode.cc","c/dec/decode.cc","c/include/brunsli/encode.h","c/include/brunsli/decode.h"],
 [("encode sink","c/enc/encode.cc EncodeBrunsli"),("decode sink","c/dec/decode.cc DecodeBrunsli; c/dec/jpeg_data_writer.cc JPEGOutput")],
 ["return value","bytes delivered"])
p("C19","End-to-end lossless recompression",
 "Whenever compressing a JPEG file succeeds, decompressing the result succeeds and returns the original file byte for byte. Otherwise compression reports failure.",
 I,"all byte strings offered as JPEG files",
 "Only two small embedded images are ever compressed by the tests.",
 ["c/enc/brunsli_encode.cc","c/dec/brunsli_decode.cc","c/enc/jpeg_data_reader.cc","c/dec/jpeg_data_writer.cc","c/enc/encode.cc","c/dec/decode.cc"],
 [("pipeline","c/enc/brunsli_encode.cc BrunsliEncodeJpeg; c/dec/brunsli_decode.cc BrunsliDecodeJpeg")],
 ["decompressed bytes"])
p("C20","Parsing arbitrary bytes as JPEG is safe and bounded",
 "For every byte string the JPEG parser terminates with success or an error code, never reads outside the input, never overflows a signed computation or a table, and never aborts. An accepted image satisfies the limits that the encoder relies on (dimensions, sampling factors, component, table and scan counts).",
 I,"all input byte strings",
 "The encoder fuzz test runs an empty corpus; unit tests parse one well-formed file.",
 ["c/enc/jpeg_data_reader.cc","c/enc/jpeg_huffman_decode.cc"],
 [("length and value checks","c/enc/jpeg_data_reader.cc VERIFY_LEN, VERIFY_INPUT"),("table construction","c/enc/jpeg_huffman_decode.cc BuildJpegHuffmanTable")],
 ["return value","sanitizer reports"])
p("C21","Encoding work split into groups yields the sequential result",
 "Encoding or decoding an image in independent groups, in any order or in parallel, gives the same bytes as the sequential coder.",
 ["inputs","schedules"],"all images, group sizes and executor schedules",
 "The group code is experimental and not covered by any test.",
 ["c/experimental/groups.cc","c/experimental/groups.h"],
 [("group split","c/experimental/groups.cc")],["stream bytes"])
p("C22","The decoder memory estimate is an upper bound",
 "For every stream the estimated peak memory is at least the memory the decoder actually allocates while decoding it.",
 I,"all streams","No test measures allocation.",
 ["c/dec/brunsli_decode.cc"],
 [("estimate","c/dec/brunsli_decode.cc BrunsliEstimateDecoderPeakMemoryUsage")],["estimate vs allocation"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P))
