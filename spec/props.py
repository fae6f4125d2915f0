"""Metadata of the properties; bin/mkmeta writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, level='proof', note='', state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, quant=' '.join(quant.split()), why=' '.join(why.split()),
                  files=files, mech=mech, technique=technique, level=level, note=' '.join(note.split()), state=state))


prop('C01', 'Level 1.5 header and trailer records decode to the documented fields',
     '''For every SEVIRI level 1.5 product (HRIT prologue and epilogue, native header and trailer), each decoded header or
     trailer field equals the bytes that the data format assigns to it, with its width, byte order and signedness.''',
     ['inputs'], 'every byte content of the 15 header and trailer records, every field of every array element',
     '''the tests decode a handful of fields of sample files; tens of thousands of field bytes are never looked at, and sample
     files hold zero or repeated values where a shifted or swapped decode goes unnoticed''',
     ['msat/hrit/MSG_data.cpp', 'msat/hrit/MSG_data_*.cpp', 'msat/hrit/MSG_machine.cpp', 'msat/msg-native/MSG_native_header.cpp', 'msat/msg-native/MSG_native_trailer.cpp'],
     [('record readers', 'msat/hrit/MSG_data_*.cpp read_from'), ('byte-order helpers', 'msat/hrit/MSG_machine.cpp')],
     'bit-level provenance dataflow over LLVM IR against format tables',
     note='Every member of every record, every byte of the input, all paths; the format tables are the oracle. Values computed from the bytes (unix times) are decided by C05.')

prop('C02', 'xRIT header records decode to the documented fields',
     '''For every xRIT file, every header record is given to the decoder of its type, records of unknown type are skipped by
     the length they carry, and each decoded header field equals the bytes the xRIT format assigns to it.''',
     ['inputs'], 'every sequence of header records, every record type 0..255 and every content of each record',
     '''the sample files of the tests hold one header layout each; record types in another order, unknown records, or field
     values with distinct bytes never occur''',
     ['msat/hrit/MSG_header.cpp', 'msat/hrit/MSG_header_*.cpp', 'msat/hrit/MSG_machine.cpp'],
     [('record loop', 'msat/hrit/MSG_header.cpp read_from'), ('record readers', 'msat/hrit/MSG_header_*.cpp read_from')],
     'bit-level provenance dataflow and reachability under known record bytes, over LLVM IR',
     note='All fields and all record types; a cursor that the analysis cannot read leaves its obligation undecided.')

prop('C03', 'Native-format lines decode to the documented fields and samples',
     '''For every native-format image line, the packet and line header fields equal the bytes the format assigns to them, and
     sample n of the line is the n-th group of ten consecutive bits, most significant first.  Reading a native file takes the places of
     its parts, the selected channels, their first and last lines and columns and their sizes from the entries of its main header (the
     high resolution channel has its own sizes), and gives each line to its channel, three to the high resolution one for one to each of
     the others.  A channel's image is its lines in order, each at its place; closing the file forgets all of it.''',
     ['inputs'], 'every content of a line packet, every sample index, every content of the main header entries',
     'no stable test reads a native product',
     ['msat/msg-native/MSG_native_line.cpp', 'msat/msg-native/MSG_native.cpp', 'msat/hrit/MSG_machine.cpp'],
     [('file reader', 'MSG_native::read'), ('line reader', 'msat/msg-native/MSG_native_line.cpp'), ('10-bit unpacker', 'MSG_native_linedata::to_sample')],
     'bit-level provenance dataflow over LLVM IR',
     note='The unpacker is decided for every sample index through its affine loop form.')


EXC = 'interprocedural exception-flow analysis over the call graph of LLVM IR'
VN = 'value numbering of LLVM IR to canonical decision diagrams, compared with the diagram of the formula'

prop('C05', 'Times decode to the instants they stand for and print as UTC',
     '''Every time field of the level 1.5 products (short, full and expanded day-segmented times, unsegmented times, generalized times,
     header time stamps) decodes to the day, millisecond, microsecond and nanosecond counts and to the unix time of the instant that its
     bytes stand for (days count from 1958-01-01), whatever the time zone of the machine.  Its text is that date and time in UTC followed
     by the milliseconds (and micro- and nanoseconds) in three digits each, and its accessors return the decoded values.''',
     ['inputs'], 'every byte content of every kind of time field',
     'the tests look at the times of a few sample files, in one time zone, with zero milliseconds',
     ['msat/hrit/MSG_time_cds.cpp', 'msat/hrit/MSG_time_cds.h', 'msat/hrit/MSG_header_timestamp.cpp', 'msat/hrit/MSG_machine.cpp'],
     [('decoding', 'MSG_time_cds_short::read_from and its siblings'), ('texts', 'get_timestr'), ('time stamp', 'MSG_header_timestamp')],
     VN + '; symbolic texts (sequence of pieces of every returned string)',
     note='Formatted years have four digits; gmtime, timegm and strftime are not analysed; 32-bit overflow that the compiler may assume away is not seen.')

prop('C06', 'Pixels carry the documented calibration of the image samples',
     '''For every channel and sample value, the calibrated value of a thermal channel is the brightness temperature given by the
     published inverse Planck relation of its radiance, and the samples of the other channels carry the scale and offset of the
     image's calibration record; pixels without a usable value are zero.  A calibrated view of an image holds sample times scale
     plus offset at every pixel and itself reports scale one and offset zero.''',
     ['inputs'], 'every channel number, number of bits per pixel, sample value, calibration record, block and pixel',
     'the tests read a few pixels of one channel; most channels, the limits and the no-data values are never seen',
     ['msat/hrit/MSG_data_RadiometricProc.cpp', 'gdal/xrit/rasterband.cpp', 'msat/gdal/dataset.cpp'],
     [('calibration table, scale and offset', 'MSG_data_RadiometricProc::get_calibration, get_slope_offset'), ('thermal image blocks', 'XRITRasterBand::IReadBlock'),
      ('calibrated view', 'CalibratedRasterBand')],
     VN, note='Real-number semantics; every constant, index, bound and comparison of the tables and of the pixel loops is decided.')

prop('C07', 'Segmented images report the size, position, time and identity of their headers',
     '''For every segmented HRIT image that opens, the raster size, the geotransform, the geostationary projection, the satellite, the
     nominal time, and the channel metadata, name, unit and data type are the ones of the file headers.''',
     ['inputs'], 'every content of the prologue and of the segment headers, both resolutions, every channel',
     'the tests open a few images of two satellites with nominal grid steps and longitude 0 or 9.5',
     ['gdal/xrit/dataset.cpp', 'gdal/xrit/rasterband.cpp', 'msat/gdal/dataset.cpp'],
     [('dataset', 'XRITDataset::init, GetGeoTransform'), ('band', 'XRITRasterBand::init, GetUnitType'), ('projection', 'msat::dataset::set_spaceview')],
     VN, note='Sizes, all six geotransform elements, the projection parameters and the text of every metadata item are decided on every path that succeeds; formatting and the projection library are not.')

prop('C08', 'Image lines are read from the right segment, row and column',
     '''For every line of a segmented HRIT image, the samples handed out are those of the row of the segment that holds the line,
     counted and mirrored as the scanning direction of the file requires, and they land in the raster at the column given by
     the coverage of the line (including the two windows of the high resolution channel).  Everything outside of the window of
     the line, and every line of a missing segment, is zero.''',
     ['inputs'], 'every line, column, number and size of segments, coverage record, scanning direction and resolution',
     'the tests read some pixels of full-disk images with complete segments; shifted windows, missing segments and other scanning directions never occur',
     ['msat/xrit/dataaccess.cpp', 'msat/xrit/dataaccess.h', 'gdal/xrit/rasterband.cpp'],
     [('line geometry', 'DataAccess::line_start, line_read'), ('segments', 'DataAccess::segment, scan, scanSegment'), ('blocks', 'XRITRasterBand::IReadBlock')],
     VN, note='The diagrams of line start, segment number, row, column and element n of the buffers are decided for all lines and columns; whether the cache returns the entry searched for is decided for entries as they are made.')

prop('C09', 'Solar and satellite geometry follow the published formulas for every pixel',
     '''For every date, time and pixel, the day of the year, the cosine of the solar zenith angle and the satellite zenith angle
     equal the published formulas, and the jday, cos_sol_za and sat_za bands hold for each pixel the value at that pixel's own
     latitude and longitude and at the nominal time of the source image, limited to [0,1] for the two angles.''',
     ['inputs'], 'every year, month, day, hour, minute, latitude and longitude; every block and pixel of a band',
     'the tests compare a few pixels of one image at one time with stored numbers',
     ['msat/facts.cpp', 'gdal/reflectance/*.cpp'],
     [('formulas', 'msat/facts.cpp jday, cos_sol_za, sat_za'), ('bands', 'CosSolZARasterBand, SatZARasterBand, JDayRasterBand'), ('pixel coordinates', 'PixelToLatlon::compute')],
     VN, note='Real-number semantics; the pixel windows, loops and coordinates of each band are included, the projection library is not.')

prop('C10', 'Reflectance bands compute the published reflectance of every pixel',
     '''For every block and pixel, a single-channel reflectance band (VIS006, VIS008, IR_016, HRV) and the 3.9 um reflectance band
     hold the reflectance given by the published formula of the calibrated source samples at the same pixel, with the Earth-Sun
     distance of the day, the solar zenith angle limited to 80 degrees, and the result limited to 0..100 percent.''',
     ['inputs'], 'every sample value, pixel position, channel, scale and offset, date and time',
     'the tests compare stored numbers at a few pixels; limits, special pixels and most channels are never exercised',
     ['gdal/reflectance/reflectance.cpp', 'gdal/reflectance/reflectance.h', 'msat/hrit/MSG_data_RadiometricProc.cpp', 'msat/facts.cpp'],
     [('pixel formulas', 'SingleChannelReflectanceRasterBand::IReadBlock, Reflectance39RasterBand::IReadBlock'), ('cached factors', 'the band constructors')],
     VN, note='Real-number semantics; the sign of each comparison, every constant, source band, window and loop bound is decided.')

prop('C11', 'Satellite, sensor and channel codes and names follow the format tables',
     '''Every satellite identifier, name, sensor name, channel name, unit, level, central wavelength, packed and scaled missing
     value and digit count returned for a satellite and channel is the one of the published tables, unknown codes give the
     documented default, and translating a tabulated code there and back returns it.''',
     ['inputs'], 'every integer code, every name',
     'the tests look up a few codes of one satellite',
     ['msat/facts.cpp', 'msat/facts.h'],
     [('tables', 'msat/facts.cpp')],
     VN, note='All arguments, not only the tabulated codes.')

prop('C12', 'GRIB files hold the dataset they are made from and read back as it',
     '''Every GRIB file written (WMO, ECMWF and plain templates) carries the size, grid, satellite position, time, satellite,
     channel, missing-value and scaled pixel keys that the documented encoding gives for the source dataset, in an order in which
     the codec accepts them; a source whose grid the encoding cannot hold is refused.  Reading a GRIB file gives the size,
     projection, geotransform, time, satellite, channel, missing value and pixels that the same encoding stores, and a message with
     another number of pixels is not accepted.''',
     ['inputs'], 'every source dataset and every GRIB message',
     'the tests write and read a few small images of one channel',
     ['gdal/grib/grib.cpp', 'gdal/grib/utils.h'],
     [('writers', 'CreateGRIB1, CreateGRIB2 and their subclasses'), ('reader', 'GRIBDataset, GRIBRasterBand'), ('time', 'Grib::setTime, Grib::formatTime')],
     VN, note='Real-number semantics; ecCodes is not analysed.')

prop('C13', 'A failing step of reading or writing GRIB fails the operation',
     '''For every GRIB file read or written through the driver, when an ecCodes, file or source-read call fails, or when the edition,
     the block, the number of pixels, the bands or the satellite height are not supported, the operation ends in an exception or in
     the failure value of the function rather than in a result made of undefined values or in a partial file reported as
     success.  Only the fields that a message need not carry may be absent.''',
     ['inputs', 'fault_sequences'], 'every call that can fail, at every place it is made, with every failure value; every unsupported input',
     'no test makes a key lookup, a write or a source read fail, and the sample messages carry every key',
     ['gdal/grib/*.cpp', 'gdal/grib/*.h'],
     [('keys', 'Grib::get_*, set_*'), ('reader', 'GRIBDataset, GRIBRasterBand'), ('writer', 'GRIBCreateCopy, CreateGRIB')],
     'interprocedural failure-propagation analysis: path-sensitive constant dataflow from each fallible call with its result preset, over LLVM IR',
     note='All fallible calls of the driver and all failure values that the code can tell apart; ecCodes itself is not analysed.')

prop('C14', 'A failing step of a dataset operation is passed on',
     '''When a source read, a geotransform or projection lookup, a coordinate transformation, a time, a scale and offset, or a copy fails in
     cropping, recoding, georeferencing, opening images, or a computed dataset, the operation fails: it throws or returns its
     failure value, and does not go on with the undefined result.  A computed band without the source channels, scale, offset
     or projection it needs is refused.''',
     ['inputs', 'fault_sequences'], 'every call that can fail, at every place it is made, with every failure value',
     'the tests run these operations on healthy sources only',
     ['msat/gdal/*.cpp', 'gdal/reflectance/*.cpp', 'gdal/utils.cpp', 'gdal/xrit/*.cpp'],
     [('translation', 'GDALTranslate::translate'), ('georeferencing', 'GeoReferencer'), ('computed datasets', 'gdal/reflectance'), ('open', 'XRITOpen, add_extras')],
     'interprocedural failure-propagation analysis: path-sensitive constant dataflow from each fallible call with its result preset, over LLVM IR',
     note='All fallible calls in scope and all failure values that the code can tell apart; GDAL itself is not analysed.')

prop('C15', 'Failures inside the GDAL drivers reach GDAL as reported failures',
     '''Whatever goes wrong while GDAL calls into the drivers (opening a file, reading a block or metadata, creating a copy), no C++
     exception crosses into GDAL: the call returns a failure (a null dataset or a CE_Failure code) and an error is reported through
     the error interface of GDAL.''',
     ['inputs', 'fault_sequences'], 'every function that GDAL calls and every exception raised below it, on every path',
     'the tests open and read well-formed files; almost none of the error paths runs',
     ['gdal/*.cpp', 'gdal/*/*.cpp', 'gdal/grib/utils.h', 'msat/gdal/dataset.cpp'],
     [('open and create', 'XRITOpen, GRIBOpen, GRIBCreateCopy'), ('blocks', 'IReadBlock of every band'), ('report', 'msat::gdal::report_exception')],
     EXC, note='Failures signalled by exceptions; failure codes of calls are decided by C14.  Allocation failures are not considered.')

prop('C16', 'No input makes the library or its tools abort',
     '''Whatever the files contain, the libraries and drivers do not end the process: they fail no assertion, call no exit function,
     let no exception pass a noexcept boundary, rethrow nothing without an exception in flight, throw no pointer to destroyed data and
     divide by no integer that can be zero; the command-line tools end with an error message, not with an uncaught exception.''',
     ['inputs', 'fault_sequences'], 'every function of the libraries, drivers and tools, every exception and every integer division in them',
     'the tests read well-formed files; a truncated file or an empty histogram never occurs',
     ['msat/*', 'gdal/*', 'tools/*'],
     [('exceptions', 'all throw sites and catch clauses'), ('tools', 'main functions'), ('divisions', 'MSG_data_RadiometricQuality.cpp, DataAccess::line_read')],
     EXC + '; value ranges of integer divisors', note='Allocation failures, out-of-range string positions and signals raised by wild memory accesses are not considered; tools that are not built here (NetCDF) are not analysed.')

prop('C23', 'Printed reports show every decoded field under its own name',
     '''The printed report of every record of the level 1.5 products (headers, prologue, epilogue, native lines, times) shows each decoded
     field under the heading that names it, every element of an array in its place, in the format of the report, and leaves out only what
     the record says is not there.  Every code of an enumerated field is shown with the name that the format documents give to it, and
     codes that they do not define with the fallback name.''',
     ['inputs'], 'every field of every record, every element of every array, every code of every enumerated field',
     'no stable test looks at a report; a swapped pair of fields or names is only noticed by comparing a dump with the bytes',
     ['msat/hrit/*.cpp', 'msat/msg-native/*.cpp'],
     [('reports', 'operator<< of the records'), ('names of codes', 'MSG_filetype, MSG_channel_name, MSG_segment_validity and their siblings')],
     'symbolic streams (sequence of literals and values that each report inserts) and symbolic texts, compared with tables; value numbering over LLVM IR',
     note='The tables (spec/reports.json, spec/labels.json) were read against member names and format documents; the inserters of the C++ library are not analysed.')

prop('C18', 'Files that cannot be opened or end too early are reported',
     '''When an input file (an xRIT segment, a native MSG file, a Meteosat HRI file, an OpenMTP-IDS file) cannot be opened, ends before the
     bytes that its own headers announce, or fails while it is read, the reading operation ends in an exception or in its failure
     value; it never goes on to success with bytes that were not read.''',
     ['inputs', 'fault_sequences'], 'every operation that opens a file or takes bytes from one; too short, failing and missing files',
     'the sample files of the tests are complete and readable',
     ['msat/hrit/*.cpp', 'msat/msg-native/*.cpp', 'msat/hri/*.cpp', 'msat/omtp-ids/*.cc', 'msat/xrit/dataaccess.cpp', 'tools/hrit/*.cpp'],
     [('xRIT', 'MSG_header::read_from, MSG_data::read_from, DataAccess::read_file'), ('native', 'MSG_native*::read'), ('HRI', 'Hri::readfrom'), ('OpenMTP-IDS', 'operator>>')],
     'typestate analysis of input streams: from every read and open with the stream set to failed, path-sensitive constant dataflow to the exits, interprocedural fixpoint over functions given the stream',
     note='Every read and open of the built readers, three ways of failing; the C++ library is taken to set its failure bits.')

prop('C19', 'Optional records of a file are used only where the file has them',
     """Whatever header records a file leaves out (image structure, navigation, data function, annotation, time, text, key, segment
     identification and quality) and whatever its data field turns out to hold instead of the expected prologue, epilogue, image or message,
     reading, opening, printing and dumping it never goes through an absent record: the absence is noticed first, and skipped or reported
     as an error.  The same holds for segments that are missing from an image.""",
     ['inputs'], 'every combination of present and absent records, every path of every function that uses one',
     'the test files have all their records',
     ['msat/hrit/MSG_header.cpp', 'msat/hrit/MSG_data.cpp', 'msat/xrit/dataaccess.cpp', 'gdal/xrit/*.cpp', 'tools/hrit/*.cpp'],
     [('reading', 'MSG_header::read_from, MSG_data::read_from'), ('scenes', 'DataAccess::scan, segment, line_read'), ('datasets', 'XRITDataset::init, XRITRasterBand::init'), ('printing', 'operator<< of MSG_header and MSG_data')],
     'null-pointer analysis by value numbering over LLVM IR: path conditions as decision diagrams, with demands on callers and postconditions of callees',
     note='Arrays of records in XRIT2Image are not followed (its checks are read as unknown).')

prop('C20', 'A file or scene name leads to the files and products of that scene',
     """A segment file name, or a short name resolution:product:channel:time, with or without directory, stands for the directory, resolution,
     satellite, channel and time it spells, and any other name is refused.  The prologue, epilogue and segments looked for are exactly the
     files of that scene under the naming scheme, each once, and a missing or ambiguous prologue or epilogue is an error.  A channel name
     ending in r opens the reflectance (from IR_039, IR_108 and IR_134 for IR_039), one ending in a the cosine of the solar zenith angle,
     and any other the channel itself.""",
     ['inputs'], 'every file name, every outcome of a file search',
     'the test names are a handful of well formed ones',
     ['msat/xrit/fileaccess.cpp', 'gdal/xrit/xrit.cpp'],
     [('names', 'FileAccess::parse, isValid'), ('searches', 'FileAccess::prologueFile, epilogueFile, segmentFiles'), ('products', 'XRITOpen')],
     'symbolic execution of string-building code over LLVM IR (texts as sequences of literals and parts of the name, per path, as decision diagrams) compared with the naming scheme',
     note='The string class and glob() are taken as documented; that the headers of the files agree with their names is not checked by the code and not claimed.')

prop('C21', 'OpenMTP-IDS files are read as they were written',
     '''Writing OpenMTP-IDS data and reading it back gives the same file header, record headers, line headers and pixels: every field
     stands at its place of the format, most significant byte first, records, scan lines and pixels follow in order and in the number
     that their header states, and padding fills each record to the length that its header states.  The scan lines asked from a file
     (one, a range, or all) are exactly those lines, in order, across the borders of records.''',
     ['inputs'], 'every value of every 16-bit field, every number of records, lines and pixels, every range of lines',
     'no test reads or writes an OpenMTP-IDS file',
     ['msat/omtp-ids/*.cc'],
     [('readers and writers', 'operator<< and operator>> of the records'), ('bytes', 'ByteSex.cc'), ('ranges of lines', 'OpenMTP_IDS::scanline')],
     'byte provenance over LLVM IR (stream position of every byte written and read, followed to its member), loop counts compared as symbolic expressions',
     note='Values are taken to fit the 16 bits of their field and counts in headers to agree with what is held; failing streams belong to another property.')

prop('C24', 'Crop, scale and recode requests give the requested dataset',
     '''For every request (window in pixels or in projected coordinates, size, band list, output type, scaling, no-data, GCPs,
     projection, bounds), the translated dataset reads the requested window of the requested bands with the requested scaling and has
     the geotransform, GCPs, size, types and no-data value that follow from it; windows outside of the raster are refused, and the
     request itself can be used again.''',
     ['inputs'], 'every request and every source dataset',
     'no stable test crops or scales',
     ['msat/gdal/gdaltranslate.cpp', 'msat/gdal/gdaltranslate.h', 'msat/gdal/dataset.cpp'],
     [('translation', 'GDALTranslate::translate'), ('recoding', 'msat::dataset::recode')],
     VN, note='Real-number semantics; the virtual datasets of GDAL are not analysed.')

prop('C25', 'Pixel, projected and geographic coordinates convert as the georeferencing says',
     '''For every dataset and coordinate, pixel to projected coordinates follow the affine geotransform of the dataset, projected to
     pixel coordinates the rounded inverse of it, and projected to and from latitude and longitude the projection of the dataset in
     the right direction and axis order; a dataset whose geotransform cannot be inverted (determinant below 1e-15) or that has no
     usable projection, and a point that cannot be transformed, are reported as failures.''',
     ['inputs'], 'every geotransform, projection, pixel and coordinate',
     'the tests convert a few points of two images whose geotransforms have no rotation and whose projections all work',
     ['msat/gdal/dataset.cpp', 'msat/gdal/dataset.h'],
     [('inverse', 'msat::dataset::invertGeoTransform'), ('conversions', 'GeoReferencer'), ('grid origin', 'decodeGeotransform')],
     VN, note='Real-number semantics; the projection library is not analysed.')

prop('C26', 'Calibrated and computed datasets keep the identity of their sources',
     """A calibrated dataset answers every question about description, metadata, georeferencing, size, bands, units, colours and control points
     as its source does, with one band per source band, 16 bit bands being calibrated (minimum and maximum too) and the others left as they
     are.  A dataset computed from others (reflectance, zenith angles, day of the year) has the size, block size, georeferencing, time and
     product metadata of its sources and the units and sample types of its values; sources that lack one of these, or that differ in
     one of them, are refused.  The open option for computed datasets gives the dataset of its name, and without the option the source
     itself.""",
     ['inputs'], 'every source dataset, band, option value and sequence of sources',
     'the tests open two computed datasets of consistent sources and compare a few pixels',
     ['msat/gdal/dataset.cpp', 'gdal/reflectance/*.cpp', 'gdal/utils.cpp'],
     [('forwarding', 'msat::dataset::ProxyDataset, ProxyRasterBand'), ('calibration', 'CalibratedDataset'), ('sources', 'msat::utils::ProxyDataset::add_info'), ('option', 'msat::gdal::add_extras')],
     VN, note='The GDAL library is not analysed; what its methods return is taken as it is.')

prop('C27', 'Scaling factors, pixel sizes and SEVIRI extents convert consistently',
     '''Every conversion among column/line scaling factors, pixel sizes, angular resolution and the SEVIRI DX/DY extents returns
     the value of its documented formula with its tabulated exceptions, and converting the nominal values there and back
     returns them.''',
     ['inputs'], 'every real argument of each conversion',
     'the tests check one nominal value',
     ['msat/facts.cpp', 'msat/facts.h'],
     [('conversions', 'msat/facts.cpp')],
     VN, note='Real-number semantics.')

prop('C28', 'Decoding and reading pixels never touch memory outside the buffers',
     '''Whatever bytes a file holds and whatever block is asked for, the decoders of XRIT, native and HRI files and the readers of
     raster blocks access only memory inside the buffers they were given, allocated or declared: record lengths found in a file are
     checked before they are used, copies are no longer than what they go to and come from, a block is written for no more than the
     size and the declared pixel type of the band say, and indexes into fixed tables (channels, calibration entries, key slots,
     stored sources) stay inside the tables.''',
     ['inputs'], 'every file content and every block',
     'the tests decode a few well-formed files, on which no length is wrong; an access out of bounds seldom changes a result',
     ['msat/hrit/MSG_header.cpp', 'msat/hrit/MSG_data.cpp', 'msat/msg-native', 'msat/hri', 'gdal/xrit/rasterband.cpp', 'gdal/reflectance', 'gdal/grib/grib.cpp',
      'msat/gdal/dataset.cpp', 'msat/xrit/dataaccess.cpp'],
     [('record lengths', 'MSG_header::read_from'), ('data fields', 'MSG_data::read_from'), ('blocks', 'XRITRasterBand::IReadBlock'), ('lines', 'DataAccess::line_read')],
     'bounds analysis over LLVM IR: dominating conditions, ranges and checked loop invariants against the sizes of buffers (Fourier-Motzkin)', note='Buffers whose size is not visible in the function that uses them, GDAL and the decompression library are not analysed.')

prop('C22', 'HRI subframes decode to the quantities their bytes encode',
     '''Reading an HRI (Meteosat first generation) subframe gives, for every content, each quantity of its label, identification and
     interpretation records as the conversion of the bytes at its place: big-endian integers, decimal texts with their scale and
     spaces as nothing, flags; the date is the one of the year and the day of the year, hour and minute those of the nominal time;
     the indicators of format, channels, halves, reduction, encryption, scan direction and satellite, and the format code made of
     them, follow the bytes; lines are put together from their frames, image lines and pixels go to and come from their own place,
     an image is as large as its format and band say, and each format code gives its bands with their calibration coefficients.''',
     ['inputs'], 'every byte of a subframe, every line and pixel number',
     'no test reads an HRI file',
     ['msat/hri'],
     [('records', 'HRI_subframe_interpretation::readfrom'), ('numbers', 'HRI_machine'), ('indicators', 'HRI_subframe_label'), ('lines', 'HRI_image')],
     VN, note='The conversion of IBM floating point numbers (loops over the bits) and the calibration curves are not decided.')


prop('C17', 'What an operation acquires is released once, also when it fails',
     '''Every buffer, header record, data field, file, ecCodes handle, list of found files, projection, transformation and dataset that
     reading, opening, creating or converting acquires is released, with the function that belongs to it, when the operation or the
     object that holds it ends, also when the operation fails half way or the same object is read into again; nothing is released
     twice or used after it was released.''',
     ['inputs', 'fault_sequences'], 'every place where something is acquired, every path from there including early returns and exceptions, every destructor',
     'the tests neither look for leaks nor fail operations half way; a leak or a dangling pointer seldom changes a result',
     ['msat/hrit', 'msat/msg-native', 'msat/hri', 'msat/xrit', 'msat/gdal', 'gdal'],
     [('records', 'MSG_header::read_from, MSG_data::read_from and destructors'), ('searches', 'FileAccess'), ('handles', 'Grib'), ('datasets', 'XRITOpen, GRIBOpen, GRIBCreateCopy, add_extras'),
      ('transformations', 'GeoReferencer, PixelToLatlon')],
     'ownership typestate over LLVM IR: path-sensitive dataflow from every acquisition over normal and exceptional exits, destructors checked against the members that own something',
     note='Things kept in containers or smart pointers of the C++ library are taken to be released by them; what GDAL is given (bands) is its own.  Allocation failures are not considered.')


# ------------------------------------------------------------------ not decided here
prop('C04', 'Compressed segments decompress to the samples that were encoded',
     '''Every wavelet or JPEG compressed image segment decompresses to the samples that the ground segment encoded.''',
     ['inputs'], 'every compressed bit stream', 'the tests hold a few compressed segments',
     ['msat/hrit/MSG_data_image.cpp'], [('decompression', 'MSG_data_image_encoded::decode')],
     None, note='''The decoder is the external Public Wavelet Transform Decompression Library, which is not in the sandbox (the file that calls it is not
     built); entropy decoding is a loop over runtime bits of which no static argument in reach gives the result.''')

prop('C29', 'HRI radiances and temperatures follow the calibration curves of the satellite',
     '''Every HRI calibration coefficient held as an IBM floating point number has its value, and temperatures follow the tabulated curves of
     the satellite and channel.''',
     ['inputs'], 'every coefficient and count', 'no test reads an HRI file',
     ['msat/hri'], [('floats', 'HRI_machine'), ('curves', 'HRI_image')],
     None, note='''The conversion of IBM floating point numbers normalises by a loop over the bits of the mantissa whose number of passes is data dependent,
     and the coefficients of the curves are empirical: there is no independent source for them in the sandbox to compare with.''')

prop('C30', 'The contents of a scene agree with its file names',
     '''The satellite, channel, resolution, segment number and time in the headers of the files of a scene are those spelled by their names.''',
     ['inputs'], 'every set of files', 'the test files are consistent',
     ['msat/xrit/*.cpp'], [('scan', 'DataAccess::scan')],
     None, note='''The code does not compare the two (segments are placed by the number in their header), so the property is one of the files and not of the
     program; there is nothing in the source to decide.''')

prop('C31', 'NetCDF, OpenMTP and THORN-SDS products are read and written faithfully',
     '''Products of these formats are read and written with the values, sizes and metadata of the source.''',
     ['inputs'], 'every product', 'no test covers them',
     ['gdal/netcdf', 'msat/openmtp', 'msat/thornsds_db1', 'tools/hrit/XRIT2NetCDF.cpp'], [('drivers', 'gdal/netcdf')],
     None, note='''These parts are not built in the sandbox (the NetCDF C++ library and its headers are absent), so there is no typed program to analyse;
     a check over their text alone would judge how the code is written.''')

prop('C32', 'Floating-point results are within their documented accuracy',
     '''Calibrated values, reflectances, angles and coordinates differ from the exact value of their formulas by no more than the precision of
     their output type.''',
     ['inputs'], 'every value', 'the tests compare with loose tolerances',
     ['msat/facts.cpp', 'gdal/reflectance/*.cpp'], [('formulas', 'msat/facts.cpp')],
     None, note='''All value properties are decided in real arithmetic; error bounds would quantify over rounding in libm and PROJ, for which neither sources nor
     contracts are in the sandbox.''')
