"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
DM = "pydarnio/dmap/dmap.py"; DS = "pydarnio/dmap/datastructures.py"; CV = "pydarnio/utils/conversions.py"
SD = "pydarnio/dmap/superdarn.py"; SF = "pydarnio/dmap/superdarn_formats.py"
BF = "pydarnio/borealis/borealis_formats.py"; BB = "pydarnio/borealis/base_format.py"
BS = "pydarnio/borealis/borealis_site.py"; BA = "pydarnio/borealis/borealis_array.py"
BO = "pydarnio/borealis/borealis.py"; BR = "pydarnio/borealis/borealis_restructure.py"
BU = "pydarnio/borealis/borealis_utilities.py"; BC = "pydarnio/borealis/borealis_convert.py"
EX = ["pydarnio/exceptions/dmap_exceptions.py", "pydarnio/exceptions/superdarn_exceptions.py",
      "pydarnio/exceptions/borealis_exceptions.py"]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("D01", "DMap write followed by read returns exactly the same records",
 "Writing any list of DMap records (named integer, floating-point and string scalars plus numeric arrays of one or more dimensions) to a file or to a byte stream and reading it back yields the same number of records in the same order. Every field keeps its name, its position, its DMap data type, its shape and its exact value, for plain-dictionary input and for typed DMap input alike. This does not depend on the memory layout or byte order of the arrays, on the order of the fields in the record, on values at the extremes of a type, or on non-ASCII text in names or strings.",
 ["inputs"], "all record lists with at least one scalar and one array per record, over all DMap numeric types, shapes (including an empty range-gate list field named slist), memory layouts, field orders, file and stream",
 "The unit tests write a handful of fixed small records and only look at a few bytes or at nothing being raised; the writer-to-reader composition is never driven with varied types, shapes, layouts or extremes.",
 [DM, CV, DS], [("record to bytes", DM+"::DmapWrite._dmap_record_to_bytes"), ("scalar encoding", DM+"::DmapWrite.dmap_scalar_to_bytes"), ("array encoding", DM+"::DmapWrite.dmap_array_to_bytes"), ("record decoding", DM+"::DmapRead.read_record/read_scalar/read_array/read_data/read_numerical_array"), ("conversions", CV)],
 ["DmapWrite.write_dmap", "DmapWrite.write_dmap_stream", "DmapRead.read_records", "DmapRead.get_dmap_records"])

prop("D02", "DMap bytes written and read follow the published DMap block format",
 "Every record written is one DMap block: encoding identifier 65537, total block size, number of scalars, number of arrays (32-bit little-endian), then all scalars (NUL-terminated name, type code, value) and then all arrays (NUL-terminated name, type code, number of dimensions, dimension sizes fastest-varying first, data in row-major order). Any file built to that format by another encoder is read with exactly the names, types, shapes and values it encodes, in file order.",
 ["inputs"], "all records on the write side; all conformant files on the read side, including type codes the library's own writer rarely produces",
 "No test compares written bytes with an independent description of the format, so a writer and a reader that change together stay green while becoming unable to exchange files with RST.",
 [DM], [("block header", DM+"::DmapWrite._dmap_record_to_bytes"), ("type table", DM+"::DMAP_DATA_TYPES"), ("dimension order", DM+"::DmapRead.read_array, DmapWrite.dmap_array_to_bytes")],
 ["bytes of a written file", "records returned for foreign bytes"])

prop("D03", "DMap writing is repeatable, isolated and free of side effects",
 "Any sequence of file writes and stream writes, on one writer or on several writers over the same records, produces each time exactly the bytes a fresh writer would produce for the records given to that writer. The caller's records (values, shapes, types, order) are never modified by writing, and results handed out earlier (files and byte streams) do not change when more writing happens later. Reading likewise leaves the input file or the caller's bytes untouched and two readers of the same data return equal, independent records.",
 ["histories", "inputs"], "all sequences of write-to-file, write-to-stream, new writer over shared records, re-read, on random records",
 "Each existing test builds one writer and writes once; nothing writes twice or compares the caller's data before and after.",
 [DM, SD], [("output buffer", DM+"::DmapWrite.dmap_bytearr"), ("array shape handling", DM+"::DmapWrite.dmap_array_to_bytes"), ("stream entry point", DM+"::DmapWrite.write_dmap_stream")],
 ["bytes of files after each step", "returned streams", "caller's objects"],
 [{"name": "output buffer", "meaning": "bytes accumulated by a writer", "where": DM+"::DmapWrite.dmap_bytearr"}])

prop("D04", "A truncated DMap file never reads as complete or wrong data",
 "Cutting a valid multi-record DMap file or stream at any byte position either raises a documented pyDARNio reading error, or, when the cut falls exactly between two records, returns exactly the records before the cut. It never returns a partial, altered or invented record and never fails with an unrelated internal error.",
 ["crash_points", "inputs"], "every byte offset of random valid files (a crash or full disk while writing, an interrupted transfer)",
 "The tests have no truncated files that exist in this tree; a crash point is a quantifier over all offsets.",
 [DM], [("bounds checks", DM+"::DmapRead.bytes_check/zero_negative_check"), ("cursor check", DM+"::DmapRead.read_record"), ("read_data bounds", DM+"::DmapRead.read_data")],
 ["exception type or records returned"])

prop("D05", "Corrupt bytes give a documented error or exactly what they encode",
 "Reading any byte string as DMap terminates promptly and either raises one of the documented reading errors or returns records that are exactly what those bytes encode as a sequence of well-formed blocks. It never hangs, never raises an undocumented error, and never returns data for bytes whose block sizes, counts, types, dimensions or terminators are inconsistent.",
 ["inputs", "fault_sequences"], "arbitrary byte strings and structured corruptions (bit flips, spliced, duplicated or deleted bytes, edited lengths, counts, dimensions and type codes) of valid files",
 "The hand-made corrupt inputs in the tests exercise about a dozen specific edits; the guarantee ranges over all byte strings.",
 [DM, EX[0]], [("size, count and dimension checks", DM+"::DmapRead.read_record/read_array/bytes_check/zero_negative_check/check_data_type"), ("string scan", DM+"::DmapRead.read_data")],
 ["exception type or records returned, compared with an independent parser"])

prop("D06", "The DMap integrity pre-check accepts exactly files tiled by whole blocks",
 "The quick integrity test passes if and only if the declared block sizes of the file add up, block after block, to exactly the end of the data, and raises a documented reading error otherwise. After passing it leaves the reader at the start so that reading afterwards gives the same records as reading without it, and it refuses to start from any other position.",
 ["inputs"], "all valid files and all corruptions of their block headers and lengths",
 "Tests call it on two fixed inputs.",
 [DM], [("integrity test", DM+"::DmapRead.test_initial_data_integrity")],
 ["exception type; reader state afterwards"])

prop("D07", "DMap reading and writing are compositional over records",
 "Reading the concatenation of several DMap files gives the concatenation of their records, and writing a list of records gives the concatenation of the bytes of each record written alone. Record contents never depend on neighbouring records, on their number, or on whether the data came from a file or a stream.",
 ["inputs"], "all partitions of random record lists",
 "No test concatenates or splits files, although daily SuperDARN files are made by concatenation.",
 [DM], [("record loop", DM+"::DmapRead.read_records, DmapWrite.dmap_records_to_bytes")],
 ["bytes and records"])

prop("D08", "Conversion between dictionaries and typed DMap records loses nothing",
 "Converting a list of plain records to typed DMap records gives one typed entry per field, in order, whose name, DMap type, dimension and shape are those of the value, and converting back returns equal values of the same DMap types. Values, shapes and record order survive, lists become equal arrays, neither direction modifies its input, and a value of a type DMap cannot represent is refused rather than silently changed.",
 ["inputs"], "all record lists over the supported Python and numpy types, and unsupported types",
 "Two tests convert one fixed record each.",
 [CV, DS], [("type tables", CV+"::FORMAT_CONVERSION, DMAP_FORMAT_TYPES, DMAP_CASTING_TYPES"), ("conversions", CV+"::dict2dmap, dmap2dict")],
 ["returned lists"])

prop("D09", "Data that cannot be written as DMap is refused and no file is damaged",
 "Asking to write no records, string arrays, text for an 8-bit char field, integers outside the range of their type, or entries that are not typed DMap data, or asking to write with no file name, raises an error instead of producing output. When a write is refused, no new file appears and an existing file of that name keeps its bytes, wherever in the record list the offending item is.",
 ["inputs"], "all positions of an unwritable item in random record lists; existing and absent target files",
 "Tests check single-record cases for the exception only and never look at the target file.",
 [DM, SD], [("refusals", DM+"::DmapWrite._empty_record_check/_filename_check/_dmap_record_to_bytes/dmap_scalar_to_bytes/dmap_array_to_bytes"), ("write after encode", DM+"::DmapWrite.write_dmap")],
 ["exception; target file bytes"])

prop("S01", "SuperDARN readers accept exactly the fields and types of the requested format",
 "For each of iqdat, rawacf, fitacf, snd, grid and map, reading a file succeeds if and only if, in every record, each group of fields defined by the format is complete or wholly absent (optional fields may be partly absent), no field outside the format is present, and every present field has the format's DMap type. Otherwise the read raises the missing-field, extra-field or wrong-type error that names the offending fields and the number of the first offending record.",
 ["inputs"], "all subsets of fields, any added fields, any type substitutions, at any record position, for all six formats",
 "Tests delete or add one field in the first record of one fixed example per format; the guarantee is over all field subsets, types and positions.",
 [SD, SF], [("field checks", SD+"::SDarnUtilities"), ("per-format groups", SD+"::SDarnRead.read_*"), ("field tables", SF)],
 ["exception type, reported fields and record number"])

prop("S02", "SuperDARN writers refuse records that do not match the format and write nothing",
 "For each of the six SuperDARN formats, writing succeeds if and only if every record matches the format (complete-or-absent groups, no extra fields, right types), and otherwise raises the corresponding error naming the offending fields and record number. A refused write leaves no new file and does not change an existing one, even when only a late record is bad, and what a successful write produces does not depend on earlier refused or successful writes.",
 ["inputs", "histories"], "all field subsets, additions and type changes at any record position, for all six formats; sequences of refused and accepted writes",
 "Tests use one fixed record per format and only check the exception.",
 [SD, SF], [("writer checks", SD+"::SDarnWrite.superDARN_file_structure_to_bytes"), ("per-format groups", SD+"::SDarnWrite.write_*")],
 ["exception; target file"])

prop("S03", "SuperDARN files round-trip and are equally valid for reader and writer",
 "Records that the writer of a SuperDARN format accepts are accepted by the reader of that format and come back with identical fields, order, types and values; records the reader returns can be written again giving an identical file. The bytes written are those of a plain DMap write of the same records.",
 ["inputs"], "random valid records of all six formats with every optional and group combination",
 "The existing round trips need data files that are not in the repository; field combinations are not explored.",
 [SD, SF, DM], [("reader and writer group lists", SD+"::SDarnRead.read_*, SDarnWrite.write_*"), ("codec", DM)],
 ["records and bytes"])

prop("S04", "The public field checks decide any format tables exactly",
 "For every list of format tables and optional tables and every record, the checks of SDarnUtilities decide exactly: dict_key_diff and dict_list2set are the difference and union of the keys; extra_field_check refuses exactly records with fields outside all tables, missing_field_check those holding a part but not all of a table that is not optional, incorrect_types_check those whose types differ from the tables; each error names exactly these fields and the record. Nothing given is changed.",
 ["inputs"], "any tables: disjoint, overlapping, nested, equal, empty, optional, and the library's own; records with any fields and types",
 "Tests use three fixed tables.",
 [SD], [("SDarnUtilities", SD)],
 ["return values and exceptions of SDarnUtilities"])

prop("B01", "Borealis site files round-trip through write and read",
 "For every supported Borealis version and file type (rawacf, bfiq, antennas_iq, rawrf), writing valid site records and reading the file returns the same records: same record names in time order, same fields, and every value with the same type, shape and content. The data sets are stored with the compression asked for. This holds for every allowed compression, for empty strings, for arrays of strings and for boolean and integer flags. A pulse phase offset stored as its own dimensions, as older radar software stored an empty one, reads as zero offsets.",
 ["inputs", "configurations"], "random valid site records of all versions v0.2 to v0.7 and all file types, several records per file, every compression setting",
 "All Borealis reading tests need data files that are absent from the repository; most of the write tests fail or never read back.",
 [BB, BS, BO], [("HDF5 record codec", BB+"::BaseFormat.read_records, write_records"), ("reader/writer", BS)],
 ["BorealisRead.records", "HDF5 content"])

prop("B02", "Borealis array files round-trip through write and read",
 "For every supported version and restructurable file type, writing valid array-structured data and reading the file returns the same arrays and attributes with identical types, shapes (including padding) and contents, with any allowed compression, which is the one the data sets are stored with.",
 ["inputs", "configurations"], "random valid array data of all versions and file types, every compression setting",
 "As for site files: reading is untested without data files.",
 [BB, BA, BO], [("HDF5 array codec", BB+"::BaseFormat.read_arrays, write_arrays"), ("reader/writer", BA)],
 ["BorealisRead.arrays"])

prop("B03", "Borealis site to array to site restructuring is the identity",
 "For every version and restructurable file type, viewing site data as arrays and those arrays as site records again gives back the original records: same record names, and for every field the same type, shape and content, although records may differ in numbers of sequences, beams and blanked samples. Only fields the format declares common to the whole file may be taken from one record.",
 ["inputs"], "random files with ragged numbers of sequences, beams, blanked samples and pulse phases, any number of records",
 "The restructuring tests need absent data files and would in any case compare one recorded file.",
 [BB, BF, BS, BA], [("site to array", BB+"::BaseFormat._site_to_array"), ("array to site", BB+"::BaseFormat._array_to_site"), ("per-format dimensions", BF)],
 ["BorealisRead.arrays / records"])

prop("B04", "The Borealis array layout is the documented one",
 "In the array structure each per-record field has the number of records as first dimension and the largest per-record size in each further dimension; each record's data sits at the start of its row and the remainder is padding that cannot be mistaken for data (NaN for floating point and complex, -1 for signed integers, 0 for unsigned). Shared fields appear once with the value of the file, and the per-record counts of sequences, beams and blanked samples stored with the arrays equal the true counts.",
 ["inputs"], "random ragged site data of all versions and restructurable types",
 "No test inspects array contents against the site contents field by field.",
 [BB, BF], [("layout", BB+"::BaseFormat._site_to_array"), ("array specific fields", BF+"::*.array_specific_fields_generate"), ("dimensions", BF+"::*.unshared_fields_dims_array")],
 ["arrays view"])

prop("B05", "File restructuring agrees with in-memory restructuring and is reversible",
 "Restructuring a Borealis file into the other structure writes a file whose contents equal what reading the input and asking for that structure gives, for every version and restructurable type, and restructuring it back gives a file whose contents equal the original. The output is a valid file of the requested structure, and restructuring to the structure the file already has yields an equal, independent copy. Its data sets are stored with the compression asked for. This includes files in which older radar software stored an empty pulse phase offset as its dimensions.",
 ["inputs", "configurations"], "random site and array files, ragged, all versions and types, both directions, compression settings",
 "The restructure integration tests need absent data files.",
 [BR, BB, BF, BU], [("site to array file", BR+"::BorealisRestructure._site_to_array_restructure"), ("array to site file", BR+"::BorealisRestructure._array_to_site_restructure"), ("dimension scan", BB+"::BaseFormat.site_get_max_dims")],
 ["output file contents"])

prop("B06", "Borealis site validation accepts exactly well-formed records",
 "Reading or writing site data succeeds if and only if every record has exactly the fields of its version and file type and every field has the required type; otherwise the error reports every bad record with its missing, extra or wrongly typed fields. A refused write creates no file, whichever record is bad.",
 ["inputs"], "all removals, additions and type changes at any record position, all versions and types",
 "Tests remove or add one field in fixed data and most of them fail on this tree because their data sets use other string types.",
 [BU, BS], [("record checks", BU+"::BorealisUtilities.check_records"), ("call sites", BS+"::BorealisSiteRead.read_file, BorealisSiteWrite.write_file")],
 ["exception and its fields; target file"])

prop("B07", "Borealis array validation accepts exactly well-formed arrays",
 "Reading or writing array data succeeds if and only if it has exactly the fields of its version and file type, with the required types, and all fields that vary from record to record have the same first dimension; otherwise a missing-field, extra-field, type, structure or number-of-records error is raised that names the fields. A refused write creates no file.",
 ["inputs"], "all removals, additions, type changes and changes of the number of records in any field, all versions and types",
 "Tests cover one field of fixed data.",
 [BU, BA], [("array checks", BU+"::BorealisUtilities.check_arrays"), ("call sites", BA+"::BorealisArrayRead.read_file, BorealisArrayWrite.write_file")],
 ["exception; target file"])

prop("B08", "Borealis structure and version are detected from the content",
 "Opening a file without stating its structure detects site or array structure correctly and gives the same data as opening it with the structure stated; stating the wrong structure or an unknown structure or file type raises the structure or file-type error. The version is taken from the data ignoring patch revision and suffix, unsupported versions are refused with the version error, and the field layout used is that of the detected version.",
 ["inputs", "configurations"], "random files of every version and type, both structures, with patch revisions and suffixes, wrong structures, unknown versions",
 "The tests use two fixed versions and nonexistent or empty files.",
 [BO, BS, BA, BU, BF], [("structure detection", BO+"::BorealisRead.return_reader, BorealisWrite.return_writer; "+BU+"::BorealisUtilities.get_borealis_structure"), ("version detection", BS+", "+BA+", "+BU+"::get_borealis_version"), ("version table", BF+"::borealis_version_dict")],
 ["reader class, version, records, exception type"])

prop("B09", "Borealis operations never alter their inputs",
 "Reading, viewing, restructuring, converting and writing leave the input file byte-identical and leave the caller's data (records, arrays, names, order) unchanged, and asking twice for the same view gives equal answers. Restructuring or converting a file onto itself is refused and leaves the file intact.",
 ["histories", "inputs"], "sequences of reads, views, writes, restructures and conversions on random files",
 "No test compares inputs before and after.",
 [BB, BO, BR, BC, BU], [("deep copies", BB+"::BaseFormat.reshape_site_arrays, flatten_site_arrays and overrides in "+BF), ("overwrite guards", BR+"::BorealisRestructure.__init__, "+BC+"::BorealisConvert.__init__")],
 ["file bytes and caller's objects before and after"])

prop("B10", "Both views of a Borealis file are independent of how it is stored",
 "For the same data, the site-records view, the arrays view, the record names and the version reported are the same whether the file on disk is site structured or array structured, and whether they are asked of the reader, of the writer that produced the file or of the converter that has converted it, in whatever order the writer was given the records.",
 ["inputs", "configurations"], "random data of every version and restructurable type stored both ways",
 "Needs two structures of the same data, which no test builds.",
 [BO, BS, BA], [("views", BS+"::records/arrays; "+BA+"::records/arrays; "+BO)],
 ["records, arrays, record_names, software_version"])

prop("B11", "A failed Borealis operation leaves no output and damages no stored data",
 "When writing, restructuring or converting Borealis data fails - for bad data in a late record, an unusable compression, an output file that already holds other data, a storage error part way through an HDF5 file, an interrupt - no new file remains and an existing file still holds exactly what it held. Site records are only added to an existing site file whose records have other names; stored records are never altered, and site and array data are never mixed in one file.",
 ["fault_sequences", "inputs", "histories"], "random data of every version, file type and direction, written onto nothing or onto existing files of every kind, with a failure injected at any point of the output",
 "Needs failures at chosen points and existing outputs of other kinds; the tests only write good data to fresh paths.",
 [BB, BR, BS, BA, BC], [("undoing a failed write", BB+"::BaseFormat._output_file, write_records, write_arrays"), ("record by record output", BR+"::BorealisRestructure._array_to_site_restructure"), ("conversion output", BC+"::BorealisConvert")],
 ["presence and contents of the output file and of every other file in its directory"])

prop("B12", "Borealis format classes describe each version's fields and sizes exactly",
 "For every supported version and file type, the format class in use puts each field in exactly one class (common to the file, per record, site only, array only), gives exactly the fields of each structure with their types, and its functions compute from any records or arrays the true largest and per-record dimensions of the per-record fields, the true counts and the fields only the other structure has. Flattening and reshaping site records are inverse to each other and alter nothing they are given, and no answer depends on what was asked or done before.",
 ["inputs", "histories"], "random data of every version, type and structure; the tables and functions of the format class asked in random order between other operations",
 "The format classes are exported for use on any data; the tests use them on a few records of one version at most.",
 [BF, BB], [("field tables", BF+"::BorealisFieldsv0_4 to BorealisFields; "+BB+"::BaseFormat.site_fields, array_fields and others"), ("sizes", BF+"::unshared_fields_dims_array, unshared_fields_dims_site, site_get_max_dims"), ("specific fields", BF+"::array_specific_fields_generate, array_specific_fields_iterative_generator, site_specific_fields_generate"), ("flattening", BF+"::flatten_site_arrays, reshape_site_arrays")],
 ["values returned by the class methods of borealis_formats"])

prop("C01", "Converted rawacf correlations and powers equal the scaled Borealis values",
 "For each beam of each Borealis rawacf record the converted record holds, range by range and lag by lag, the real and imaginary parts of the main-array autocorrelations and of the cross-correlations multiplied by (32767 squared times the scaling factor) over the normalization factor squared, without the extra alternate lag zero. Lag-zero power is the magnitude of the scaled lag-zero autocorrelation, and the range-gate list counts all ranges from 0.",
 ["inputs"], "random rawacf files of every version with any number of records, beams, ranges, lags and any scaling factor",
 "The conversion tests need absent data files and have no value oracle.",
 [BC], [("rawacf conversion", BC+"::BorealisConvert.__convert_rawacf_record")],
 ["sdarn_dict, converted file"])

prop("C02", "Converted iqdat samples equal the scaled and saturated Borealis samples",
 "For each beam of each bfiq record the converted record holds, for each sequence in time, for each antenna array, for each sample, the real then imaginary part scaled by 32767 times the scaling factor over the normalization factor, truncated to integers and saturated at the 16-bit limits. The per-sequence offsets and sizes index exactly each sequence's block of samples, and the per-sequence times equal the Borealis sequence timestamps in seconds and microseconds.",
 ["inputs"], "random bfiq files of every version with any number of records, beams, sequences, antenna arrays and samples, any scaling factor including saturating ones",
 "The conversion tests need absent data files and have no value oracle.",
 [BC], [("bfiq conversion", BC+"::BorealisConvert.__convert_bfiq_record")],
 ["sdarn_dict, converted file"])

prop("C03", "Converted records carry the radar metadata of the Borealis record",
 "Conversion produces one SuperDARN record per beam per Borealis record, in record then beam order, and every metadata field (time, station, program, beam number and azimuth, ranges, pulse and lag tables, frequency, integration time, sampling, status words, transmit power mask, version, channel and comments) is the value of the corresponding Borealis field for that record and that beam.",
 ["inputs"], "random rawacf and bfiq files of every version, multi-record and multi-beam, all stations",
 "Existing tests check nothing about converted metadata without data files.",
 [BC], [("rawacf and bfiq conversions", BC+"::BorealisConvert.__convert_rawacf_record, __convert_bfiq_record"), ("station table", BC+"::code_to_stid")],
 ["sdarn_dict, converted file"])

prop("C04", "Only data that SuperDARN formats can represent is converted",
 "Conversion succeeds only if in every record the blanked samples are exactly the pulse positions (or, from v0.6, also the pulse positions each followed by the next sample) and, for bfiq, all pulse phase offsets are zero, and the station has a SuperDARN station number; otherwise the conversion error for that type is raised. File types with no SuperDARN counterpart are refused with the conversion-type error, a pre-v0.5 file without a slice id is refused, and no refused conversion leaves an output file.",
 ["inputs"], "random files with altered blanked samples, phase offsets in any record or unknown stations, every version, every file type",
 "The gating code is never executed by the tests that run here.",
 [BC], [("gating", BC+"::BorealisConvert._is_convertible_to_iqdat, _is_convertible_to_rawacf, _write_to_sdarn")],
 ["exception; output file"])

prop("C05", "Conversion gives the same SuperDARN file from site and array files",
 "Converting the site-structured and the array-structured form of the same Borealis data, with the structure stated or detected, gives identical SuperDARN records up to the source file name quoted in the comment.",
 ["inputs", "configurations"], "random rawacf and bfiq data of every version stored both ways",
 "Needs both structures of one data set.",
 [BC, BO], [("record view used for conversion", BC+"::BorealisConvert.__init__ (records)")],
 ["converted files"])

prop("C06", "A converted file is a valid SuperDARN file equal to the reported records",
 "After conversion the output file is read without error by the strict reader of the target SuperDARN format, and its records equal the converted records the converter reports, field by field, type by type, whatever was at the output path before.",
 ["inputs"], "random convertible rawacf and bfiq files of every version, existing and absent output files",
 "Existing conversion tests do not run here and only check that a file can be read.",
 [BC, SD, DM], [("write", BC+"::BorealisConvert._write_to_sdarn"), ("types", SF)],
 ["output file read with SDarnRead"])

prop("X01", "Objects describe themselves and errors carry what they report",
 "Every reader, writer, restructurer and converter can be printed and represented at any point of its life without failing, showing the file it works on. Every pyDARNio error can be raised with its documented arguments, printed, and inspected, its message naming the file, record and fields it was given; the warning formatters show the message with its category, the standard one also its file and line.",
 ["inputs", "histories"], "all public classes after construction, use and failure; all error classes with arbitrary argument values",
 "Tests print almost none of the objects or errors.",
 [DM, SD, BO, BS, BA, BR, BC] + EX, [("__repr__/__str__", "all public classes"), ("exception constructors", "pydarnio/exceptions")],
 ["repr(), str(), attributes"])

prop("X02", "Separate readers, writers and conversions do not affect each other",
 "Readers, writers, restructurings and conversions used at the same time in several threads each give exactly the result or error they give when used alone, although they may read the same files and be given the same records, as long as each thread has its own pyDARNio objects and output files. The shared records and files are not altered.",
 ["schedules", "inputs"], "generated interleavings of 2-3 threads, switching at any line or bytecode instruction of pydarnio, over random DMap, SuperDARN and Borealis data",
 "Tests use one object at a time in one thread.",
 [DM, SD, BO, BS, BA, BR, BC], [("state of readers and writers", "class and module attributes of the readers, writers and formats")],
 ["results and exceptions per operation, shared data afterwards"])

prop("X03", "Operations release their files and leave no trace in the process",
 "After any read, write, restructuring, conversion or refused operation, no file it used stays open, no temporary file remains next to the data, in the working or in the temporary directory, and the process is as before: working directory, environment, file creation mask, warning filters, logging set-up, random and floating-point error state, threads. What was read stays complete when the file it came from is changed or removed afterwards.",
 ["histories", "inputs"], "1-5 good and refused operations on random DMap, SuperDARN and Borealis data; files removed, emptied, replaced or overwritten under live readers, writers and converters",
 "Tests compare results only; nothing looks at the state left behind or at readers that outlive their file.",
 [DM, SD, BO, BS, BA, BR, BC], [("file handles", "every h5py.File and open() in the readers, writers and formats"), ("process state", "warnings, logging and numpy settings")],
 ["/proc/self/fd, directory listings, process state; everything a reader answers"])

prop("X04", "Results do not depend on time zone, locale, hash seed or what was done before",
 "Reading, writing, restructuring and converting the same data gives the same result - values and types, order of records and fields, bytes of DMap files, contents of HDF5 files - or a refusal of the same class in every time zone, locale, hash seed, working directory, optimisation mode of Python, log level, and numpy print, warning or floating-point error mode, and whatever operations were done before.",
 ["configurations", "inputs"], "1-4 good and refused operations on random DMap, SuperDARN and Borealis data in three interpreters set up differently, in either order",
 "Tests run in one interpreter in one environment.",
 [DM, SD, BO, BS, BA, BR, BC], [("readers and writers", "all public classes"), ("times", "utcfromtimestamp in the restructuring and conversion"), ("sets of fields", SF)],
 ["results of the operations in each interpreter"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print(len(P), "properties valid")
except FileNotFoundError: pass
