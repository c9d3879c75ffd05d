#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["Src/libCZI/"+f if not f.startswith("Src/") else f for f in files],
                   mechanism=[dict(name=a,where=b) for a,b in mech])))

p("C01","A written sub-block is read back unchanged",
  "Every sub-block that the CZI writer accepted is, after the writer was closed, enumerated exactly once by a reader opened on the resulting bytes, with the same plane coordinate, M-index, logical rectangle, physical size, pixel type, compression and pyramid type. Its pixel data, sub-block metadata and sub-block attachment have exactly the sizes given and exactly the bytes the application supplied (bytes the application did not supply read as zero). No other sub-block is reported.",
  ["inputs","histories"],"all coordinates, M-indices, rectangles, pixel types, payload contents and payload sizes, and all numbers of sub-blocks",
  "Tests write a handful of fixed tiles; they do not cover arbitrary coordinates, negative positions, missing M-index, odd payload sizes or every combination of data, metadata and attachment sizes.",
  ["CziWriter.cpp","CziWriter.h","CziStructs.h","CziParse.cpp","CZIReader.cpp","CziSubBlockDirectory.cpp"],
  [("CWriterUtils::WriteSubBlock","CziWriter.cpp"),("CWriterUtils::FillDimensionEntry / WriteSubBlkDirectory","CziWriter.cpp"),("CCZIParse::ReadSubBlock / ReadSubBlockDirectory","CziParse.cpp")])
p("C02","Written attachments and metadata are read back unchanged",
  "Every attachment and the XML metadata passed to the CZI writer are reported by a reader of the resulting file with the same GUID, content type, name, size and bytes, and the file GUID is the one requested. No other attachment is reported, whatever sizes were reserved for the attachment directory, sub-block directory or metadata segment.",
  ["inputs","histories","configurations"],"all attachment counts, names, content types, payload sizes, metadata sizes and reservation options",
  "Tests use a few attachments of fixed size and one or two reservation settings.",
  ["CziWriter.cpp","CziAttachmentsDirectory.cpp","CziParse.cpp","CZIReader.cpp","FileHeaderSegmentData.h"],
  [("CWriterUtils::WriteAttachment / WriteMetadata / WriteAttachmentDirectory","CziWriter.cpp"),("CCZIParse::ReadAttachmentsDirectory / ReadAttachment / ReadMetadataSegment","CziParse.cpp")])
p("C03","Segments of a written file are well-formed and never overlap",
  "In every file produced by the writer or the reader-writer, the segments starting at offset 0 follow one another without overlap, start at 32-byte aligned positions, have a used size not larger than their allocated size, and lie inside the file (only an unused, 'deleted' reservation may be cut off at the end). The file header refers to the positions of the sub-block directory, attachment directory and metadata segments which are actually there, and each directory entry points at a segment of the right kind.",
  ["inputs","histories","configurations"],"all sequences of write operations, payload sizes and reservation options",
  "The layout arithmetic (allocated sizes, padding, positions of the next segment) depends on every payload size and on the history; tests only check files through the reader.",
  ["CziWriter.cpp","CziReaderWriter.cpp","CziReaderWriter.h"],
  [("nextSegmentInfo bookkeeping, CWriterUtils::AlignSegmentSize, WriteZeroes","CziWriter.cpp"),("CCziReaderWriter::Finish, WriteToOutputStream","CziReaderWriter.cpp")])
p("C04","The writer rejects duplicates and out-of-bounds coordinates",
  "Adding a sub-block to the writer fails with an error exactly if an already added sub-block has the same plane coordinate and the same zoom (ratio of stored to logical size) and either the same M-index or, if both have none, the same position - unless duplicates were explicitly allowed; the reader-writer rejects a layer-0 sub-block with the coordinate and M-index of an existing one. Adding an attachment fails exactly if one with the same GUID, content type and name exists. If the writer was given coordinate bounds or M-index bounds, exactly the sub-blocks inside the bounds (with exactly those dimensions) are accepted. A rejected item leaves no trace in the file.",
  ["inputs","configurations"],"all pairs of sub-block coordinates, all bounds",
  "Tests probe single examples; the ordering used for duplicate detection is only right if it is a strict weak order over all coordinate values.",
  ["CziWriter.cpp","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp"],
  [("CWriterCziSubBlockDirectory::TryAddSubBlock, SubBlkEntryCompare","CziSubBlockDirectory.cpp"),("CCziWriter::CheckCoordinate / ThrowIfCoordinateOutOfBounds","CziWriter.cpp"),("CWriterCziAttachmentsDirectory::TryAddAttachment","CziAttachmentsDirectory.cpp")])
p("C05","In-place edits keep everything that was not edited",
  "After any sequence of adding, replacing and removing sub-blocks and attachments and writing metadata through the reader-writer, followed by closing it, a reader opened on the file sees exactly the content the sequence describes: the edited items with their new content, the removed items gone, all others byte for byte as before. The reader-writer itself reports the same content while it is open.",
  ["histories","inputs"],"all operation sequences up to the bound, on new and existing files, with all payload sizes",
  "Tests run a few hand-picked sequences; overwriting depends on the relative sizes of old and new segments and on the order of operations.",
  ["CziReaderWriter.cpp","CziReaderWriter.h","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp","CziWriter.cpp"],
  [("ReplaceSubBlock / ReplaceAttachment / SyncAddSubBlock / SyncAddAttachment / SyncWriteMetadata / Finish","CziReaderWriter.cpp"),("CReaderWriterCziSubBlockDirectory","CziSubBlockDirectory.cpp")])
p("C06","Opening arbitrary bytes is memory-safe and ends in success or an error",
  "Whatever bytes a stream delivers for file header, sub-block directory and attachment directory, opening the document either succeeds or throws an exception derived from std::exception; it never reads or writes outside of its buffers, uses uninitialised data or crashes.",
  ["inputs","configurations"],"all byte contents of the segments (bounded number of entries), all open options",
  "Malformed inputs are only sampled by tests.",
  ["CziParse.cpp","CziParse.h","CZIReader.cpp","CziStructs.cpp"],
  [("CCZIParse::ReadFileHeaderSegmentData / ReadSubBlockDirectory / ReadAttachmentsDirectory / ParseThroughDirectoryEntries","CziParse.cpp")])
p("C07","Reading arbitrary sub-block, attachment and metadata segments is memory-safe",
  "Whatever bytes a stream delivers for a sub-block, attachment or metadata segment, reading it either throws an exception or yields blobs whose reported size is really available and whose content is exactly the corresponding byte range of the stream.",
  ["inputs"],"all byte contents of the segment headers and payload",
  "Malformed inputs are only sampled by tests.",
  ["CziParse.cpp","CziSubBlock.cpp","CziAttachment.cpp","CziMetadataSegment.cpp","CZIReader.cpp"],
  [("CCZIParse::ReadSubBlock / ReadAttachment / ReadMetadataSegment","CziParse.cpp")])
p("C08","Directory entries are decoded faithfully and strictness options are honoured",
  "For every well-formed directory entry the reader reports exactly the coordinate, rectangle, size, M-index, pixel type, compression, pyramid type and file position encoded in it. When a strictness check is enabled, an entry which violates it makes opening fail; when it is disabled, the very same entry is accepted.",
  ["inputs","configurations"],"all values of all fields of an entry, all orders of the dimension entries, all option sets",
  "Tests contain a few example entries per option.",
  ["CziParse.cpp","CziUtils.cpp","CziStructs.h"],
  [("CCZIParse::AddEntryToSubBlockDirectory, CheckEntry logic, SubblockDirectoryParseOptions","CziParse.cpp"),("CziUtils::PixelTypeFromInt / CompressionModeFromInt","CziUtils.cpp")])
p("C09","Stream faults surface as errors, never as wrong data or silent loss",
  "If any read from the input stream fails or delivers fewer bytes than needed, the operation needing them throws instead of returning wrong content. If any write to the output stream fails or is short, the operation performing it throws; if no operation threw, the file is complete. An item whose addition failed is not part of the document and can be added again; all items not concerned by a failed operation stay as they were.",
  ["fault_sequences","inputs"],"every position of a failing or short read or write in an operation sequence",
  "Tests do not inject faults at every I/O operation.",
  ["CziParse.cpp","CZIReader.cpp","CziWriter.cpp","CziReaderWriter.cpp"],
  [("CCZIParse::ThrowNotEnoughDataRead / ThrowIllegalData","CziParse.cpp"),("WriteToOutputStream, ThrowNotEnoughDataWritten","CziWriter.cpp")])
p("C10","Document statistics are a function of the current sub-blocks",
  "The sub-block statistics reported by a reader or reader-writer (sub-block count, bounding boxes overall, for layer 0 and per scene, dimension bounds, M-index range) and the pyramid statistics equal the values computed from the set of sub-blocks currently in the document. They are independent of the order in which the sub-blocks were added, and after removing or replacing sub-blocks they are what a freshly opened reader reports.",
  ["inputs","histories"],"all sets of sub-blocks up to the bound, all orders and edit sequences",
  "Tests check statistics for a few files and never for arbitrary coordinates, negative positions or edit histories.",
  ["CziSubBlockDirectory.cpp","CziSubBlockDirectory.h"],
  [("CSbBlkStatisticsUpdater::UpdateStatistics / Consolidate / Clear","CziSubBlockDirectory.cpp")])
p("C11","Queries return exactly the matching sub-blocks and attachments",
  "Enumerating a subset of the sub-blocks by plane coordinate, region of interest and 'only layer 0' delivers exactly those sub-blocks whose coordinate agrees in every given dimension, whose rectangle intersects the region and whose layer fits, each exactly once, and stops when the callback asks for it. The same holds for attachments selected by content type and name, and for 'an arbitrary sub-block of a channel'; an index which does not exist is reported as such.",
  ["inputs"],"all sub-block positions, regions and query coordinates",
  "Tests use fixed queries on a few fixed documents.",
  ["CziReaderCommon.cpp","CZIReader.cpp","CziReaderWriter.cpp"],
  [("CziReaderCommon::EnumSubset / EnumerateSubset / TryGetSubBlockInfoOfArbitrarySubBlockInChannel","CziReaderCommon.cpp")])
p("C12","Single-channel tile composition is back-to-front painting of the matching tiles",
  "The bitmap delivered by the single-channel tile accessor for a region is, pixel for pixel, the background colour overpainted with all tiles of the requested plane which pass the scene filter, in order of ascending M-index, tiles without M-index first (tiles with equal M-index, and all tiles if sorting by M is switched off, may be painted in any order). Pyramid tiles and tiles of other planes are ignored, and if masks are to be considered only the valid pixels of a tile are painted. The result does not depend on whether a sub-block cache is used, whether visibility optimisation is enabled, or which of the equivalent accessor overloads is called.",
  ["inputs","configurations"],"all tile positions, M-indices, pixel values, regions and options up to the bound",
  "Tests compare a few fixed mosaics.",
  ["SingleChannelTileAccessor.cpp","SingleChannelTileCompositor.cpp","SingleChannelAccessorBase.cpp","BitmapOperations.cpp"],
  [("CSingleChannelTileAccessor::InternalGet / GetAllSubBlocks / ComposeTiles","SingleChannelTileAccessor.cpp"),("CSingleChannelAccessorBase::CheckForVisibility","SingleChannelAccessorBase.cpp"),("Compositors::ComposeSingleTileBitmap","SingleChannelTileCompositor.cpp")])
p("C13","Visibility pruning never drops a tile which contributes a pixel",
  "The area reported as covered by a set of rectangles equals the area of their union within the query rectangle for every set of rectangles in any order, and a rectangle is reported as completely covered exactly if every point of it lies in one of them. Consequently the visibility test only discards tiles which are completely hidden by tiles painted later.",
  ["inputs"],"all rectangle coordinates, all sets of rectangles up to the bound",
  "Tests use random and hand-picked rectangles.",
  ["utilities.cpp","utilities.h","SingleChannelAccessorBase.cpp"],
  [("RectangleCoverageCalculator","utilities.cpp"),("CSingleChannelAccessorBase::CheckForVisibilityCore","SingleChannelAccessorBase.cpp")])
p("C14","Frame-of-reference transformations are consistent and invertible",
  "Transforming a point or rectangle from the raw sub-block coordinate system into the pixel coordinate system and back gives the original; the pixel coordinate system has the top-left corner of the layer-0 bounding box as its origin. The default frame of reference given at opening determines how points and regions given in the 'default' frame are interpreted (bare rectangles are raw), and regions given in either system yield the same result from the accessors. Without an open document, or with an undefined frame, an error is raised.",
  ["inputs","configurations"],"all points and rectangles whose coordinates do not overflow, all bounding boxes",
  "Tests check a few points.",
  ["CZIReader.cpp","CziReaderWriter.cpp","SingleChannelTileAccessor.cpp"],
  [("CCZIReader::TransformPoint / TransformRectangle, GetDefaultFrameOfReference","CZIReader.cpp")])
p("C15","Scaled composition has the documented size, tiles and placement",
  "For every region and zoom the scaling accessor delivers a bitmap of the size it announces beforehand and never touches memory outside of it; at zoom 1 the result equals the unscaled composition. The pyramid-layer accessor uses exactly the sub-blocks of the requested layer, for every region including regions and layers without any sub-block.",
  ["inputs","configurations"],"all regions, zooms and pyramid layouts up to the bound",
  "Tests run a few zooms on fixed documents.",
  ["SingleChannelScalingTileAccessor.cpp","SingleChannelPyramidLevelTileAccessor.cpp"],
  [("CSingleChannelScalingTileAccessor::CalcSize / GetSubSet / Paint","SingleChannelScalingTileAccessor.cpp"),("CSingleChannelPyramidLevelTileAccessor::GetSubBlocksSortedByLayer / CalcPyramidLayerNo","SingleChannelPyramidLevelTileAccessor.cpp")])
p("C16","Copying, filling and byte-swapping bitmaps is exact and clipped",
  "Copying a bitmap to any offset of another one changes exactly the pixels in the intersection of both, each to the documented conversion of the corresponding source pixel, and never reads outside of the source or writes outside of the destination. Pairs of pixel types for which no conversion exists raise an error. Filling a bitmap sets every pixel to the given colour.",
  ["inputs"],"all offsets, sizes, strides, pixel type pairs and pixel values up to the bound",
  "Tests try a few offsets and pixel types.",
  ["BitmapOperations.cpp","BitmapOperations.hpp"],
  [("CBitmapOperations::CopyWithOffset / Copy / Fill","BitmapOperations.cpp")])
p("C17","Nearest-neighbour resizing stays inside its bitmaps and picks the right pixel",
  "For every source and destination size and region the nearest-neighbour resize never accesses memory outside of the two bitmaps; every destination pixel it writes is the converted value of an existing source pixel at the mapped position, and resizing to the same size is the identity.",
  ["inputs"],"all sizes, regions and pixel values up to the bound",
  "Tests resize a few images.",
  ["BitmapOperations.hpp","BitmapOperations.cpp","libCZI_Utilities.cpp"],
  [("CBitmapOperations::NNResize / InternalNNScale2","BitmapOperations.hpp")])
p("C18","Bitonal mask operations act on exactly the addressed bits",
  "Setting, getting, filling and decimating bitonal bitmaps affects or reads exactly the addressed pixels for every width, offset and rectangle (also rectangles partly or completely outside), and never touches memory outside of the bitmap. Copying with a mask changes exactly the pixels in the clipped intersection whose mask bit is set, for every supported pair of pixel types.",
  ["inputs"],"all widths, rectangles, offsets, mask contents up to the bound",
  "Tests use a few fixed masks.",
  ["BitmapOperationsBitonal.cpp","BitmapOperationsBitonal.h"],
  [("BitmapOperationsBitonal::Fill / Set / CopyWithOffsetAndMask / BitonalDecimate","BitmapOperationsBitonal.cpp")])
p("C19","Decoding sub-block data follows the size-resolution protocol",
  "Creating a bitmap from a sub-block yields a bitmap of the described size and pixel type whose pixels are the stored (decompressed) data row by row; if there is less data than described the rest is zero, if there is more it is ignored; with mismatch handling disabled too little data (for compressed data also too much) is an error. This holds for uncompressed, zstd0 and zstd1 data with and without hi-lo-byte packing, and malformed headers raise an error without reading outside of the data.",
  ["inputs","configurations"],"all data sizes, bitmap sizes, pixel types, header bytes and payload contents up to the bound",
  "Tests decode a few fixed bitmaps and sizes.",
  ["CreateBitmap.cpp","decoder_zstd.cpp","bitmapData.h"],
  [("CreateBitmapFromSubBlock","CreateBitmap.cpp"),("CZstd0Decoder::Decode / CZstd1Decoder::Decode","decoder_zstd.cpp")])
p("C20","Compression round-trips and respects the destination buffer",
  "Decompressing what the zstd0/zstd1 compressor produced gives back the original bitmap for every pixel type, stride, size and parameter set it accepts; the lo-hi-byte packing and unpacking are inverse to each other. The compressor never writes beyond the destination size given, reports failure if the data does not fit, and releases every temporary buffer exactly once.",
  ["inputs","configurations"],"all bitmap sizes, strides, contents and parameters up to the bound; zstd itself is taken as a correct codec",
  "Tests compress a few bitmaps.",
  ["zstdCompress.cpp","utilities.cpp","decoder_zstd.cpp","libCZI_compress.h"],
  [("ZstdCompress::CompressZStd0 / CompressZStd1","zstdCompress.cpp"),("LoHiBytePackUnpack","utilities.cpp")])
p("C21","The sub-block cache returns what was added and its accounting is exact",
  "After any sequence of add, get and prune operations, a lookup returns the last bitmap and mask added for that sub-block if it was not pruned; the reported memory usage and element count equal the sums over the items held. After pruning, the usage and the count are within the limits given, only least-recently used items were removed and no more than necessary.",
  ["histories","inputs"],"all operation sequences up to the bound, all bitmap sizes and limits",
  "Tests run fixed sequences.",
  ["subblock_cache.cpp","subblock_cache.h"],
  [("SubBlockCache::Add / Get / Prune","subblock_cache.cpp")])
p("C22","Concurrent use of cache and reader behaves like some sequential order",
  "When several threads use one sub-block cache, or read sub-blocks from one reader while another closes it, every interleaving yields results which some sequential order of the calls yields; there are no data races and the accounting stays exact. A call which overlaps with closing the reader either delivers the right content or reports that the reader is closed.",
  ["schedules"],"all interleavings of two threads with the stated numbers of operations",
  "Tests cannot control the scheduler.",
  ["subblock_cache.cpp","CZIReader.cpp"],
  [("SubBlockCache::mutex_","subblock_cache.cpp"),("CCZIReader::stream access by atomic shared_ptr","CZIReader.cpp")])
p("C23","Plane coordinates and bounds behave as values and survive text conversion",
  "A plane coordinate or dimension bound returns exactly the values set for exactly the dimensions set; comparison is a total order consistent with equality. The string form of a coordinate or of bounds parses back to the same value, malformed strings are rejected with an error, and enumerating all coordinates of a bound delivers every coordinate in it exactly once.",
  ["inputs","histories"],"all coordinates over all dimensions, all strings up to the bound",
  "Tests use fixed coordinates and strings.",
  ["libCZI_DimCoordinate.h","DimCoordinate.cpp","libCZI_Utilities.cpp"],
  [("CDimCoordinate / CDimBounds","libCZI_DimCoordinate.h"),("CDimCoordinate::Parse","DimCoordinate.cpp"),("Utils::Compare / EnumAllCoordinates","libCZI_Utilities.cpp")])
p("C24","Index sets contain exactly the numbers their text describes",
  "For every index-set string the parser either reports an error or builds a set which contains an integer exactly if it lies in one of the listed numbers or ranges (including open ranges with 'inf'); no string leads to an out-of-bounds access.",
  ["inputs"],"all strings up to the bound and all query integers",
  "Tests use fixed strings.",
  ["IndexSet.cpp","IndexSet.h"],[("CIndexSet::ParseString / IsContained","IndexSet.cpp")])
p("C25","Multi-channel composition computes each pixel as documented",
  "Each pixel of a multi-channel composite is the saturated sum over the channels of the source value mapped through black/white point or look-up table and tinted with the channel colour, for every supported pixel type and option; no memory outside of the bitmaps and tables is accessed.",
  ["inputs","configurations"],"all pixel values, weights-table contents, black/white points and tints up to the bound",
  "Tests compare a few composites by hash.",
  ["MultiChannelCompositor.cpp"],[("Compositors::ComposeMultiChannel_*","MultiChannelCompositor.cpp")])
p("C26","MD5 digests are those of RFC 1321 and do not depend on chunking",
  "The digest computed for a byte sequence is its RFC 1321 MD5 digest, no matter how the sequence was split into update calls; the digest of a bitmap depends on its pixels only, not on the padding bytes of its lines.",
  ["inputs","histories"],"all contents up to the bound and all ways to split them",
  "Tests compare a few digests.",
  ["MD5Sum.cpp","BitmapOperations.cpp"],[("CMd5Sum::update / complete","MD5Sum.cpp"),("CBitmapOperations::CalcMd5Sum","BitmapOperations.cpp")])
p("C27","Sub-block attachment chunks are delivered exactly and safely",
  "For arbitrary attachment bytes, enumerating the chunks of a chunk container either reports an error or delivers the consecutive chunks with increasing index, the GUID and size stored, and an offset such that the payload lies inside of the attachment. The valid-pixel mask derived from it is the one stored, and a missing or truncated mask is reported as an error.",
  ["inputs"],"all attachment contents up to the bound",
  "Tests contain a few hand-made containers.",
  ["SubblockAttachmentAccessor.cpp","SubblockAttachmentAccessor.h"],
  [("SubblockAttachmentAccessor::EnumerateChunksInChunkContainer / GetValidPixelMaskFromChunkContainer","SubblockAttachmentAccessor.cpp")])
p("C28","The C API converts parameters faithfully",
  "Every structure passed through the C API (coordinates, bounds, sub-block infos, statistics, add-sub-block infos, open and accessor options, GUIDs and writer options given as text) arrives on the other side with the same values in both directions; truncated strings are reported as such, end at a character boundary and never overrun the caller's buffer.",
  ["inputs"],"all values of all fields",
  "Tests convert a few examples.",
  ["Src/libCZIAPI/src/parameterhelpers.cpp","Src/libCZIAPI/src/libCZIApi.cpp"],
  [("ParameterHelpers::Convert*","Src/libCZIAPI/src/parameterhelpers.cpp")])
p("C29","C API handles never touch freed or foreign objects and errors become codes",
  "Calling any C API function with a null or wrong kind of handle or null output argument returns an error code and leaves the process intact; a valid handle refers to the object it was created for until it is released, and each object lives until its last handle is released. No C++ exception leaves the C API.",
  ["inputs","histories"],"all sequences of create/use/release up to the bound",
  "Tests follow the intended call order.",
  ["Src/libCZIAPI/src/libCZIApi.cpp","Src/libCZIAPI/src/sharedptrwrapper.h"],
  [("SharedPtrWrapper","Src/libCZIAPI/src/sharedptrwrapper.h")])
p("C30","Enumeration values map to file values and back without loss",
  "Pixel types, compression modes and pyramid types written to a file are mapped back to the same values; every integer not denoting a known value is reported as invalid (or kept as raw value where documented), and the bytes-per-pixel reported match the pixel type.",
  ["inputs"],"all 32-bit integers",
  "Tests check some values.",
  ["CziUtils.cpp","CziUtils.h","libCZI_Utilities.cpp"],
  [("CziUtils::PixelTypeFromInt / IntFromPixelType / CompressionModeFromInt / GetBytesPerPel","CziUtils.cpp")])
p("C31","Streams deliver exactly the requested byte range",
  "The file and memory input streams deliver, for every offset and size, exactly the bytes of the underlying file in that range and the number of bytes actually available; output streams place exactly the given bytes at the given position and leave all others as they were. Offsets which cannot be represented raise an error.",
  ["inputs","fault_sequences"],"all offsets, sizes and short system-call results",
  "Tests read a few ranges from real files and cannot make the operating system return short counts.",
  ["StreamImpl.cpp","StreamsLib/preadfileinputstream.cpp","StreamsLib/simplefileinputstream.cpp"],
  [("CInputStreamImplPread::Read / COutputStreamImplPwrite::Write / CStreamImplInMemory::Read","StreamImpl.cpp")])
p("C32","Bitmap locks are counted exactly",
  "The lock count of a bitmap equals the number of locks minus unlocks for every call sequence; unlocking an unlocked bitmap raises an error and changes nothing. The memory announced by a lock is really accessible for the announced size, stride and bitmap dimensions.",
  ["histories","inputs"],"all lock/unlock sequences up to the bound, all bitmap sizes",
  "Tests use one or two sequences.",
  ["bitmapData.h","stdAllocator.cpp"],[("CBitmapData::Lock / Unlock","bitmapData.h")])
p("C33","Texts for colours, key-value lists and tokens convert exactly or are rejected",
  "A colour text is converted to the colour it denotes or rejected; a 'key=value;...' text is split into exactly the pairs it describes, with escaped characters resolved, or rejected; a compression option text ('method:key=value;...') gives exactly the method and parameters it describes or is rejected; trimming removes exactly the leading and trailing white space. No text, whatever characters it contains, leads to an access outside of it or to a crash.",
  ["inputs"],"all texts up to the bound",
  "Tests use fixed examples.",
  ["utilities.cpp","utilities.h"],
  [("Utilities::TryGetRgb8ColorFromString / Trim / TokenizeAzureUriString","utilities.cpp")])
p("C34","XML metadata documents are built and interpreted faithfully",
  "Values put into a metadata document with the metadata builder come back from the metadata reader, also after the document was written as XML and parsed again: text, integer, boolean and floating-point node values and attributes, nodes addressed by paths (with index or attribute conditions), the document title/author/dates and further document information, image and dimension sizes, channels with their ids, names, pixel types, exposure times and wavelength ranges, scaling, display settings and custom key-value pairs, and the tags (such as the stage position) of a sub-block's own metadata. A text that is not a number, boolean or date of the requested type (or does not fit into it) is reported as absent and never turned into another value; dates which do not exist are rejected; a document which is not well-formed XML is reported as such by all of its users.",
  ["inputs"],"all node values, paths, attribute values, dimension sizes, dates and document texts within the bounds",
  "Tests use a handful of fixed documents with well-formed values.",
  ["CziMetadataBuilder.cpp","CziMetadata.cpp","XmlNodeWrapper.h","CziMetadataDocumentInfo.cpp","CziMetadataDocumentInfo2.cpp","CziDisplaySettings.cpp","SubblockMetadata.cpp","utilities.cpp"],
  [("MetadataUtils / CCziMetadata","CziMetadataBuilder.cpp"),("XmlNodeWrapper","XmlNodeWrapper.h"),("XmlDateTime::TryParse","CziMetadataBuilder.cpp")])
p("C35","JPEG-XR data is decoded to the original bitmap",
  "Lossless JPEG-XR compression followed by decoding gives back the bitmap, and malformed JPEG-XR data raises an error without memory corruption.",
  ["inputs"],"all bitmaps and all compressed byte sequences",
  "Tests decode a few images.",
  ["decoder.cpp","jxrlibcompress.cpp","Src/JxrDecode/JxrDecode.cpp"],[("CJxrLibDecoder::Decode","decoder.cpp")])
p("C36","Remote streams deliver the requested range of the remote object",
  "The HTTP and Azure streams deliver exactly the requested byte range of the remote object, or an error.",
  ["inputs","fault_sequences"],"all ranges and all server behaviours",
  "Tests need a server.",
  ["StreamsLib/curlhttpinputstream.cpp","StreamsLib/azureblobinputstream.cpp"],[("CurlHttpInputStream::Read","StreamsLib/curlhttpinputstream.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
