"""Which harness decides which property."""
PROPS = {}


def P(pid, **kw):
    kw.setdefault('drivers', [])
    PROPS[pid] = kw


P('C01', level='proof',
  units=[dict(name='c01', tu=['c01.cc'], harness=['c01_prob_init', 'c01_prob_add', 'c01_step', 'c01_begin_end'])],
  assumptions=['the induction over the sequence of decisions composes the per-step contract (DESIGN.md, C01)'])

P('C02', level='proof',
  units=[dict(name='c02', tu=['c02.cc'], harness=['c02_step', 'c02_table', 'c02_info', 'c02_begin_end', 'c02_words'])],
  assumptions=['the induction over the sequence of symbols composes the per-symbol contract (DESIGN.md, C02)'])


F = lambda *names, **kw: [dict(dict(name=n, mode='fork'), **kw) for n in names]
P('C04', level='proof',
  units=[dict(name='c04', tu=['c04.cc', 'c04_dec.cc'],
              harness=['c04_write', 'c04_read'] +
              F('c04_varint16', 'c04_limited8', 'c04_limited2', 'c04_limited2_short', 'c04_u8', 'c04_truncated', 'c04_base128',
                'c04_base128_fix', 'c04_base128_any', 'c04_side', 'c04_side_begin_end') +
              F('c04_varint28', steps=20000000, exec=400, weight=5))],
  assumptions=['the induction over the sequence of items composes the per-item contract (DESIGN.md, C04)'])


D_RW = dict(name='rw', tu=['drv_e2e.cc'], entry='drv_rw', ms=20000, bounded='random baseline and progressive files up to about 100 blocks')
D_E2E = dict(name='e2e', tu=['drv_e2e.cc'], entry='drv_e2e', ms=30000, bounded='random baseline and progressive files up to about 100 blocks')


def D_DEC(entry, ms, bounded):
    return dict(name=entry, tu=['drv_dec.cc'], entry=entry, ms=ms, bounded=bounded)


STREAMS = 'random small valid streams, one to six corrupted spots or section edits each'
D_BIG = dict(name='big', tu=['drv_e2e.cc'], entry='drv_big', ms=30000, bounded='random images up to 40x48 MCUs')
ENC_STREAM = '_ZN7brunsli8internal3enc10DataStream7AddBitsEii'
DEC_STREAM = '_ZN7brunsli9BitSource8ReadBitsEiPNS_10WordSourceE'
FIND8 = '_ZSt4findIN9__gnu_cxx17__normal_iteratorIPhSt6vectorIhSaIhEEEEhET_S7_S7_RKT0_'
FIND32 = '_ZSt4findIN9__gnu_cxx17__normal_iteratorIPjSt6vectorIjSaIjEEEEjET_S7_S7_RKT0_'
ERASE32 = '_ZNSt6vectorIjSaIjEE5eraseEN9__gnu_cxx17__normal_iteratorIPKjS1_EE'
L32 = {FIND32: 'c05_find32', ERASE32: 'c05_erase32'}
P('C05', level='proof',
  units=[dict(name='c05', tu=['c05.cc'], harness=[
             dict(name='c05_remove', weight=4), 'c05_remove_at', dict(name='c05_remove_rest', replace={FIND8: 'c05_find'}),
             'c05_erase_body', 'c05_find_body',
             dict(name='c05_lehmer', replace=L32, prune='near', weight=4),
             dict(name='c05_lehmer_bad', replace=L32, prune='near', cases={'bad': [0, 63]}, procs=8)]),
         dict(name='c05_order', tu=['c05_order_enc.cc', 'c05_order_dec.cc'], harness=[
             dict(name='c05_order', prune='near', cases={'tail': [0, 62]}, procs=8, weight=8,
                  replace={ENC_STREAM: 'c05_add_bits', DEC_STREAM: 'c05_read_bits_split',
                           '_ZN7brunsli16DecodeLehmerCodeEPKjmPj': 'c05_decode', '_ZN7brunsli17ComputeLehmerCodeEPKjmPj': 'c05_compute'}),
             dict(name='c05_order_any', prove=False)])],
  drivers=[D_BIG],
  assumptions=['std::vector::erase on the code list is used through the contract proved by c05_erase_body'])
D_META = dict(name='meta', tu=['drv_e2e.cc'], entry='drv_meta', ms=25000, bounded='random metadata: up to 1024 segments, templates with changed bytes, pieces of 1 to 600 bytes')
D_STRUCT = dict(name='struct', tu=['drv_e2e.cc'], entry='drv_struct', ms=25000, bounded='random tables and structure: up to 511 Huffman codes, 100 scans, four quantisation tables, pieces of 1 to 600 bytes')
P('C10', level='proof',
  units=[dict(name='c10', tu=['c10.cc', 'c10_enc.cc'], opts=dict(unroll=4000), harness=F('c10_app0', 'c10_app2', 'c10_app12', 'c10_app14', 'c10_segment',
              'c10_payload', 'c10_short', 'c10_tail', 'c10_refuse') +
              F('c10_encode', cases={'shape': [0, 6]}, procs=7, native=False, weight=4,
                replace={'BrotliEncoderCompress': 'c10_brotli', '_ZN7brunsli13EncodeBase128EmPh': 'c10_base128',
                         '_ZN7brunsli18TransformAppMarkerERKSt6vectorIhSaIhEEPm': 'c10_transform'}) +
              F('c10_section', native=False,
                replace={'BrotliDecoderDecompressStream': 'c10_stream', 'BrotliDecoderTakeOutput': 'c10_take', 'BrotliDecoderDestroyInstance': 'c10_destroy',
                         '_ZN7brunsli15ProcessMetaDataEPKhmPNS_8internal3dec13MetadataStateEPNS_8JPEGDataE': 'c10_process'}))],
  drivers=[D_META],
  assumptions=['brotli (external) returns what it was given', 'at most two application segments and one comment in c10_encode; longer lists repeat its loop bodies'])
C08_IO = {'_ZN7brunsli9WriteBitsEmmPNS_7StorageE': 'c08_write', '_ZN7brunsli12EncodeVarintEiiPNS_7StorageE': 'c08_write_varint',
          '_ZN7brunsli15GetQuantTableIdERKNS_14JPEGQuantTableEbPh': 'c08_table_id',
          '_ZN7brunsli23BrunsliBitReaderCanReadEPNS_16BrunsliBitReaderEm': 'c08_can_read',
          '_ZN7brunsli20BrunsliBitReaderReadEPNS_16BrunsliBitReaderEj': 'c08_read',
          '_ZN7brunsli12DecodeVarintEPNS_8internal3dec11VarintStateEPNS_16BrunsliBitReaderEm': 'c08_read_varint',
          '_ZN7brunsli15FillQuantMatrixEbjPh': 'c08_fill'}
P('C08', level='proof',
  units=[dict(name='c08', tu=['c08_enc.cc', 'c08_dec.cc'], opts=dict(unroll=5000, steps=8000000), harness=[
      dict(name='c08_tables', prune='near', replace=C08_IO, cases={'shape': [0, 6]}, thorough_cases={'shape': [0, 9]}, procs=8, weight=8),
      *F('c08_frame', replace=C08_IO, cases={'shape': [0, 9]}, procs=8, native=False, weight=4),
      *F('c08_step', replace=C08_IO, native=False),
      dict(name='c08_best', prune='near', replace={'_ZN7brunsli15FillQuantMatrixEbjPh': 'c08_fill_ghost'}),
      dict(name='c08_table_id', prune='near', replace={'_ZN7brunsli14FindBestMatrixEPKibPh': 'c08_find'}, cases={'chroma': [0, 1]}),
      dict(name='c08_fill', cases={'chroma': [0, 1]})])],
  drivers=[D_STRUCT],
  assumptions=['the induction over the 64 coefficients composes c08_step',
               'two tables that are both stored as differences are covered by c08_frame and the driver, c08_tables has at most one per list (quick)'])
def c03_io(read, code):
    return {'_ZN7brunsli9WriteBitsEmmPNS_7StorageE': 'c03_write', '_ZN7brunsli20BrunsliBitReaderReadEPNS_16BrunsliBitReaderEj': read,
            '_ZN7brunsli12_GLOBAL__N_120ReadShortHuffmanCodeEPNS_16BrunsliBitReaderEPKa': code,
            '_ZN7brunsli25BrunsliBitReaderIsHealthyEPNS_16BrunsliBitReaderE': 'c03_healthy'}
C03_ALL = {'_list': [dict(omit=o, length=n) for n in range(3, 19) for o in range(n)]}
def c03_cases(name, io, quick):
    return dict(name=name, prune='near', replace=io, native=False, cases={'_list': [dict(omit=o, length=n) for o, n in quick]}, thorough_cases=C03_ALL,
                procs=8, weight=8)
C03_RW, C03_ANY = c03_io('c03_read', 'c03_read_code'), c03_io('c03_any', 'c03_any_code')
P('C03', level='proof',
  units=[dict(name='c03', tu=['c03.cc'], opts=dict(ob=120), harness=[
      c03_cases('c03_counts', C03_RW, [(0, 18), (7, 12), (17, 18)] + [(o, n) for n in range(3, 6) for o in range(n)]),
      c03_cases('c03_accept', C03_ANY, [(9, 18), (0, 18), (17, 18)] + [(o, n) for n in range(3, 6) for o in range(n)]),
      *F('c03_small', native=False, replace={'_ZN7brunsli9WriteBitsEmmPNS_7StorageE': 'c03_write_small',
         '_ZN7brunsli20BrunsliBitReaderReadEPNS_16BrunsliBitReaderEj': 'c03_read_small', '_ZN7brunsli25BrunsliBitReaderIsHealthyEPNS_16BrunsliBitReaderE': 'c03_healthy'}),
      *F('c03_static', native=False, replace={'_ZN7brunsli20BrunsliBitReaderReadEPNS_16BrunsliBitReaderEj': 'c03_read_bit'}),
      dict(name='c03_accept_small', prune='near', native=False, replace=C03_ANY),
      dict(name='c03_normalize', prove=False)])],
  drivers=[D_E2E],
  assumptions=['NormalizeCounts computes with floating point numbers, which the verifier does not interpret: that it yields frequencies in the normal form '
               'c03_counts starts from is only executed (c03_normalize, random histograms)',
               'the quick run proves c03_counts and c03_accept for 15 of the 168 positions of remainder and last symbol, the thorough run for all',
               'bits written are the bits read (C04)'])
P('C06', level='exploration', units=[], drivers=[D_BIG])
P('C07', level='exploration', units=[], drivers=[D_BIG])
P('C09', level='exploration', units=[], drivers=[D_STRUCT, D_E2E])
P('C11', level='exploration', units=[], drivers=[D_RW, D_DEC('drv_jpegfuzz', 20000, 'mutated random files')])
P('C12', level='exploration', units=[], drivers=[D_DEC('drv_malformed', 45000, STREAMS)])
P('C13', level='exploration', units=[], drivers=[D_DEC('drv_stream', 45000, STREAMS + ', three random chunkings each')])
U_BYPASS = dict(name='c15', tu=['c15_enc.cc', 'c15_dec.cc'], harness=F(
    'c15_bypass', cases={'header': [0, 1], 'comps': [1, 4]}, procs=8,
    replace={'_ZN7brunsli8ReadJpegEPKhmNS_12JpegReadModeEPNS_8JPEGDataE': 'c15_read'}))
P('C14', level='proof',
  units=[U_BYPASS, dict(name='c14', tu=['c14.cc'], harness=F('c14_bound'))],
  drivers=[D_E2E, D_STRUCT, D_META, D_DEC('drv_bypass', 10000, 'random bytes up to 2 MB')],
  assumptions=['that 82 bytes per block and one megabyte hold the entropy coded data and its tables is only executed (drivers), not proved'])
P('C15', level='proof', units=[U_BYPASS], drivers=[D_DEC('drv_bypass', 20000, 'random bytes up to 2 MB')],
  assumptions=['ReadJpeg is used through its contract: an accepted header has 1 to 4 components, positive dimensions below 65536 and sampling factors up to 15 (C20)'])
V_D = 'EPNS_8internal3dec5StateEPNS_8JPEGDataE'
BOUNDARY = '_ZN7brunsliL19IsAtSectionBoundaryEPNS_8internal3dec5StateE'
C17 = dict(name='c17', tu=['c17.cc'], opts=dict(steps=8000000), harness=F('c17_signature', 'c17_section_head', native=True) +
           F('c17_item', native=False, replace={BOUNDARY: 'c17_boundary'}, weight=3) +
           F('c17_header', native=False, replace={BOUNDARY: 'c17_boundary_first'}) +
           F('c17_finale', native=False, replace={'_ZN7brunsli8internal3dec28UpdateSubsamplingDerivativesEPNS_8JPEGDataE': 'c17_derive',
                                                  '_ZN7brunsli8internal3dec11PrepareMetaEPKNS_8JPEGDataEPNS1_5StateE': 'c17_prepare'}) +
           F('c17_body', native=False, replace={
               '_ZN7brunsliL21DecodeMetaDataSection' + V_D: 'c17_meta', '_ZN7brunsliL26DecodeJPEGInternalsSection' + V_D: 'c17_internals',
               '_ZN7brunsliL22DecodeQuantDataSection' + V_D: 'c17_quant', '_ZN7brunsliL26DecodeHistogramDataSection' + V_D: 'c17_histogram',
               '_ZN7brunsliL19DecodeDCDataSectionEPNS_8internal3dec5StateE': 'c17_dc', '_ZN7brunsliL19DecodeACDataSectionEPNS_8internal3dec5StateE': 'c17_ac',
               '_ZN7brunsli8internal3dec10WarmupMetaEPNS_8JPEGDataEPNS1_5StateE': 'c17_warm'}) +
           F('c17_run', native=False, replace={
               '_ZN7brunsli15VerifySignatureEPNS_8internal3dec5StateE': 'c17_do_signature', '_ZN7brunsli12DecodeHeader' + V_D: 'c17_do_header',
               '_ZN7brunsliL17DecodeOriginalJpg' + V_D: 'c17_do_original', '_ZN7brunsliL12ParseSectionEPNS_8internal3dec5StateE': 'c17_do_section',
               '_ZN7brunsliL14ProcessSection' + V_D: 'c17_do_body'}))
P('C17', level='proof', units=[C17],
  assumptions=['composition over the items of the header, the sections and the stages by induction (DESIGN.md, C17)',
               'c17_item: items with a payload of more than 2 bytes continue in the stages c17_item enters; lengths are symbolic, data is at most 12 bytes'],
  drivers=[D_DEC('drv_container', 40000, STREAMS)])
P('C18', level='proof', units=[
    dict(name='c18_enc', tu=['c18_enc.cc'], harness=F('c18_encode', native=False, replace={
        '_ZN7brunsli8ReadJpegEPKhmNS_12JpegReadModeEPNS_8JPEGDataE': 'c18_read', '_ZN7brunsli28GetMaximumBrunsliEncodedSizeERKNS_8JPEGDataE': 'c18_max',
        '_ZN7brunsli17BrunsliEncodeJpegERKNS_8JPEGDataEPhPm': 'c18_encode_jpeg'})),
    dict(name='c18_dec', tu=['c18_dec.cc'], harness=F('c18_decode', native=False, replace={
        '_ZN7brunsli17BrunsliDecodeJpegEPKhmPNS_8JPEGDataE': 'c18_decode_jpeg', '_ZN7brunsli9WriteJpegERKNS_8JPEGDataENS_10JPEGOutputE': 'c18_write_jpeg'})),
    dict(name='c18_write', tu=['c18_write.cc'], harness=F('c18_write', native=False, replace={
        '_ZN7brunsli8internal3dec13SerializeJpegEPNS1_5StateERKNS_8JPEGDataEPmPPh': 'c18_serialize'}))],
  assumptions=['c18_encode: results of at most 6 bytes, the code passes the buffer on without looking at it',
               'c18_write: later rounds of the loop of WriteJpeg start in the same state as the second one'],
  drivers=[D_DEC('drv_sink', 30000, 'every way one callback call can fall short')])
P('C19', level='exploration', units=[], drivers=[dict(D_E2E, ms=60000)])
P('C20', level='exploration', units=[], drivers=[D_DEC('drv_jpegfuzz', 60000, 'mutated random files up to about 100 blocks')])

HOOKS = dict(guard='BRUNSLI_CONTRACTS', enable='-DBRUNSLI_CONTRACTS (engine/build.py)', source_commits=['8f8703ca91383f459d1a581080243bf2a2c76f35', '3e3bad6f2030ff48adca79f55e5747ba1420a5f1', '2c31571bf09d814ebb0d533d5fa033a41ca04031'])
NA = {
    'C21': 'the group splitting lives in c/experimental, works on threads and shares the per-part code already covered by C01-C09; '
           'its schedules are outside what sequential contracts over one call can state',
    'C22': 'heap consumption of a whole run, including the C++ library and brotli, is not expressible in the contracts of this verifier',
}
