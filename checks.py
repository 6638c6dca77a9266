"""What each check consists of."""
CHECKS = {}


def add(ids, **kw):
    for i in ids:
        CHECKS[i] = dict(kw)


add(['C11', 'C12', 'C13'], design=['MC_Layout'], gen=['Gen_Layout'], driver='layout', trace='T_Layout')

_L = ('The layout model is explored completely within its bounds; every recorded call of the real code is judged by '
      'the same operators. Covers all 42 type pairs with small lengths exhaustively and larger ones by seeded sampling. '
      'Trusts the driver (reflection-based projection of slices to bytes) and TLC. ')
NOTES = {
    'C11': _L + 'Reads are judged at any stride, writes at strides not smaller than the unpadded element; padding bytes inside elements are unconstrained.',
    'C12': _L + 'Between the padded and the unpadded end of the last element both outcomes are accepted; strides smaller than an element are only checked for bounds.',
    'C13': _L + 'Memory use outside the buffer is observed through canaries around it after writing through the returned slice.',
}

for _i in ('C04', 'C05', 'C06', 'C07'):
    add([_i], design=['MC_Glb'], gen=['Gen_Glb'] if _i == 'C04' else [], driver='glb', trace='T_Glb')

_G = ('The model composes a piece-wise writer with a failing medium and a stream reader and is explored completely within its bounds; '
      'recorded runs of the real encoder and decoder are judged by the same container definition. ')
NOTES.update({
    'C04': _G + 'Written bytes are compared completely with the container the specification constructs from the JSON text found in them and the buffer of the document; that the JSON text itself denotes the document is C01.',
    'C05': _G + 'Containers are built by the harness, with paddings up to several thousand bytes, further chunks and trailing bytes, and delivered in many portions. The meaning is compared with unmarshalling the JSON text alone.',
    'C06': _G + 'Every cut and every header word of small containers is damaged; which damage must be reported is decided by the specification. Arbitrary mutated documents only have to end without panic and without a short binary buffer.',
    'C07': _G + 'Every call of every session is made to fail in six ways, once and for ever, and the medium is made to run full at every byte (sampled for long outputs); real files only through /dev/full, missing directories and directories in the way.',
})

add(['C09'], design=['MC_Store'], gen=['Gen_Store'], driver='resources', trace='T_Resources')
add(['C10'], design=['MC_Uri'], gen=['Gen_Uri'], driver='resources', trace='T_Resources')
add(['C26'], design=['MC_B64'], gen=[], driver='resources', trace='T_Resources')

_R = ('The model of resources is explored completely within its bounds; TLC enumerates documents and URIs for the real encoder and decoder, '
      'seeded random ones follow, and every recorded access is judged by the same operators. ')
NOTES.update({
    'C09': _R + 'Resource names are compared by their path elements. The in-memory and the real directory are both used.',
    'C10': _R + 'Paths are those of this platform (Linux). Of URIs with malformed escapes, colons, control characters or a malformed host behind a backslash only containment is required, not rejection.',
    'C26': _R + 'All lengths up to 70 (thorough 300), all single-character corruptions of short data URIs. Non-canonical base64 (line breaks, stray bits) may be accepted or rejected, but never with other data. A differently cased scheme may be read either way.',
})

add(['C14', 'C15', 'C16', 'C17'], design=['MC_Modeler'], gen=['Gen_Modeler'], driver='modeler', trace='T_Modeler')

_M = ('The model of building documents (any sequence of writes, failed writes and round trips, with real memory) is explored completely within its bounds; '
      'TLC enumerates all sequences of three abstract operations for the real helpers, seeded longer ones follow; the whole document is recorded after every operation and judged. ')
NOTES.update({
    'C14': _M + 'Everything written is read back at the end and at random points, through the library, after the memory handed in was overwritten.',
    'C15': _M + 'Starting documents have buffers whose data is loaded. A group of one member is judged like a single accessor.',
    'C16': _M + 'Attribute names other than those the library defines are not judged for normalization, nor are duplicate names. Bounds of positions are compared as numbers: zeros of both signs are equal. Finite values only.',
    'C17': _M + 'Refusals by panic of wrongly typed data count as failures. A twin document on which the failed calls were not made must stay equal to the end.',
})

add(['C18'], design=['MC_Access'], gen=['Gen_AccessGood'], driver='access', trace='T_Access')
add(['C20'], design=['MC_Access'], gen=['Gen_AccessBad'], driver='access', trace='T_Access')
add(['C19'], design=['MC_Pool'], gen=[], driver='access', trace='T_Access', race=True, parts=4)

_A = ('TLC explores the reading algorithm (C18, C20) and the life of pooled and handed-in memory with two concurrent readers (C19) completely within their bounds; '
      'TLC enumerates well-formed accessors of all types and all pairs of damages for the real readers, seeded random ones follow. ')
NOTES.update({
    'C18': _A + 'Every element of every read is compared with the value the specification computes from the bytes of the document. Floating-point components are not NaN.',
    'C19': _A + 'Histories of reads by every reader, sequential and from up to six goroutines, with all kinds of scratch memory, are compared with reads with emptied pools and fresh memory; run with the race detector and pointer checks.',
    'C20': _A + 'Accessors that are questionable but denote elements (overlapping strides, missing padding at the end) may be read or rejected, but never as other data. An accessor without view legitimately denotes as many zeros as its count; counts between 2000 and MaxInt are not tried there.',
})

add(['C25'], design=['MC_Norm'], gen=[], driver='norm', trace='T_Norm')
NOTES['C25'] = ('All 8- and 16-bit integers are converted (colours of 16 bits: every third in the quick tier), and floats at and around every boundary, judged by exact integer arithmetic; '
                'TLC shows that the demands are consistent: every admissible quotient rounds back to its integer, in order. Quotients may be off in the last place. The sRGB curve is a table computed offline with 50 digits. '
                'Numbers outside [0,1] or [-1,1] are not judged.')

add(['C21'], design=['MC_Norm', 'MC_Access'], gen=['Gen_Typed'], driver='typed', trace='T_Typed')
NOTES['C21'] = ('TLC enumerates every reader on every type in several layouts; all 8-bit values and (quick: a sample of) all 16-bit values go through every conversion, floats are sampled. Elements are computed by the specification from the '
                'document, conversions judged by exact integer arithmetic. Colours outside [0,1] are only counted.')

for _i in ('C01', 'C02', 'C03', 'C22', 'C23'):
    add([_i], design=['MC_Schema'], gen=['Gen_Schema', 'Gen_Ext'] if _i in ('C01', 'C22', 'C23') else ['Gen_Schema'], driver='schema', trace='T_Schema')

_S = ('TLC enumerates documents object by object: every property absent, default, zero and other, in pairs, every enumeration code; seeded random whole documents follow. The specification, not the library, says which '
      'JSON each document has and what each JSON denotes; both directions are compared value by value. The model of repeated rounds of writing and reading is explored completely within its bounds. ')
NOTES.update({
    'C01': _S + 'Numbers are compared as IEEE doubles (exactly, by their shortest decimals). URIs that name files are drawn in normalised spelling, since reading normalises them.',
    'C02': _S + 'Whether a value equal to the default is written or left out is not judged, only what it reads as.',
    'C03': _S + 'Codes outside the format are judged only where the statement demands it (unknown element types).',
    'C22': _S + 'Handlers are registered by the driver that return values of any kind (nil, typed nil, text, numbers, structures) or refuse, with or without a value, at any object; the built-in ones are registered too.',
    'C23': _S + 'Both the packages\' own values and their registered forms (pointers) are used.',
})

add(['C08'], design=['MC_Effects'], gen=['Gen_Effects'], driver='effects', trace='T_Effects', race=True, parts=8)
NOTES['C08'] = ('TLC explores several encodings of one document running at once, failing at any step and interrupted by edits (two encoders, two buffers); all histories of three encodings and edits are performed on the real encoder, '
                'longer random ones follow, under the race detector. All memory reachable from the document is compared after every encoding, and at every call of the destination, including addresses, capacities and spare room. '
                'What a failing destination received is not compared.')

add(['C24'], design=['MC_Registry', 'MC_Zones'], gen=['Gen_Registry'], driver='registry', trace='T_Registry', race=True, parts=4)
NOTES['C24'] = ('TLC explores the lock algorithm with two registering and two decoding processes and nested decodings completely within its bounds, and shows on all histories of two writes and two reads that the criterion by which '
                'recorded histories are judged is linearizability by definition. All schedules of five steps, with decodings that stop inside handlers, are performed on the real registry; free runs of up to seven goroutines follow, under the race detector. '
                'Which interleavings occur in free runs is up to the scheduler.')

add(['C27'], design=['MC_Isolation'], gen=['Gen_Isolation'], driver='isolation', trace='T_Isolation', race=True, parts=8)
NOTES['C27'] = ('TLC explores two processes that decode into one heap while owners overwrite their documents, and shows that sharing a default, the input or another document is noticed; all histories of three steps on two documents (and of steps at the same time on three) '
                'are performed on the real code, longer random ones on up to four documents follow, under the race detector. Overwriting reaches everything that can be reached, up to the capacity of every slice. '
                'Decoding into a used document is done only with inputs that have the same properties. ReadBufferView, which returns the memory of the document by design, is not counted as a result of reading.')

add(['C28'], design=['MC_Handles'], gen=['Gen_Handles'], driver='handles', trace='T_Handles')
NOTES['C28'] = ('TLC explores calls with up to three resources that go wrong in every way; all plans for two resources are performed on the real code and longer random ones follow; every operation on a resource is judged as it comes. '
                'Of real files, the descriptors that the process holds after the call are compared, with garbage collection off. A panic inside the caller\'s file system is not tried.')
