#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Any number of inputs merge into one complete, time-ordered stream",
  "When the rows of every input are in non-decreasing timestamp order, driving any number of inputs delivers every row of every input exactly once, with its values unchanged, in globally non-decreasing timestamp order. "
  "Rows of one input keep their order, and among rows with equal timestamps those of an earlier-listed input come first. "
  "Rows of an input that is out of order are all delivered as well, exactly once and in their order.",
  ["inputs", "configurations"], "all numbers of inputs, row counts (including empty inputs) and timestamp patterns up to the 64-bit extremes",
  "The merge tests drive two or three fixed files of a few rows with distinct timestamps; ties, exhausted inputs, many inputs and extreme timestamps are never met.",
  ["src/driver/driver.rs", "src/driver/source_row_buffer.rs", "src/driver/merge_join.rs", "src/chopper_cli.rs"],
  [("min-timestamp selection over one-row buffers", "Driver::drive, Driver::get_next_buffer_index"), ("one-row lookahead per source", "SourceRowBuffer::has_next")],
  ["rows handed to a recording sink", "csv written by the command line tool"],
  [("row_buffers", "the next undelivered row of each unfinished input", "src/driver/driver.rs")])

p("C02", "The begin/end interval selects exactly the rows in [begin, end)",
  "For any begin and end times, given or omitted, exactly the rows with begin <= timestamp < end are delivered, unchanged and in order. "
  "An input with no rows in the interval, or no rows at all, contributes nothing and neither fails the run nor affects the rows of the other inputs. "
  "An input that is out of order ends at its first row at or after the end time, and its rows before the begin time are left out wherever they are.",
  ["inputs", "configurations"], "all intervals (empty, inverted, one-sided, at the 64-bit extremes, on and next to row timestamps) over all inputs, in time order or not",
  "The tests use one interval over one file; boundary equality, empty selections and several inputs finishing at different times are not sampled.",
  ["src/driver/source_row_buffer.rs", "src/driver/driver.rs", "src/chopper/types.rs"],
  [("per-row range decision", "filter_data_range, match_next_row"), ("skipping of sources with nothing in range", "Driver::drive")],
  ["rows handed to a recording sink", "csv written by the command line tool"])

p("C03", "Rows reach exactly the steps their graph leads them to, in order",
  "In a graph of chains with splits, merges and side branches, every source feeds the chain that has its own number, and every row is passed to each step on each path it leads to exactly once per path, depth-first in listed order, as changed by the earlier steps of that path only. "
  "A step may replace a row by none, one or many rows, and each of these continues in order from the next step. "
  "Every step that a source leads to is flushed after the last row that reaches it. "
  "A graph that could not pass on all rows (a merge that gets fewer headers than it was made for, or a chain that is led to and does not exist, has no steps or leads to itself) is an error before any row is delivered.",
  ["programs", "inputs"], "all graphs that can be built out of the public building blocks, with any dropping, duplicating or changing steps, over any rows",
  "Three fixed graph shapes are tested, by comparing their final files; event order, tees after merges, multi-row output before splits and flushes are not observed.",
  ["src/driver/driver.rs", "src/chopper/header_graph.rs", "src/chopper/data_graph.rs", "src/driver/split.rs", "src/driver/merge_join.rs"],
  [("recursive row passing", "Driver::process_row"), ("recursive flush", "Driver::flush"), ("header graph to data graph translation", "HeaderGraph::match_remove_chain")],
  ["header, row and flush events recorded inside of probe steps"])

p("C04", "Headers always describe the rows, and mismatched inputs never merge",
  "Every row that a step receives has exactly one value per column of the header that the step was given, under the right column. "
  "Inputs whose column names, column order, column types or column counts differ are never merged, nor led into the same chain by splits: the run fails before any row is delivered, and so does a graph that has fewer chains than there are sources.",
  ["inputs", "programs"], "all headers, and all pairs of headers that differ in any one position",
  "No test ever merges inputs with different headers, or records header and rows side by side.",
  ["src/driver/merge_join.rs", "src/chopper/header_graph.rs", "src/chopper/types.rs", "src/source/csv_source.rs", "src/driver/driver.rs"],
  [("header equality check in merge", "MergeJoin::check_header"), ("chain count check", "Driver::new")],
  ["headers and rows recorded by probe steps", "exit status and output of the command line tool"])

p("C05", "Value filters and column deletion act exactly on the named column",
  "The equality filter passes exactly the rows whose named column holds the given value, the greater-than filter exactly those whose named column holds a non-null value that is greater than the given value of same type (the program fails when types differ), and column deletion removes exactly the named column from the header and from every row. "
  "Column names are matched ignoring ASCII case and the first match counts; an unknown name is an error before any row is delivered. "
  "Everything else about the rows, their order included, is left unchanged.",
  ["inputs", "configurations"], "all headers, column positions, supported value types (nulls and not-a-number included) and filter values",
  "The filter test uses one string column and one value each.",
  ["src/filter/row_filter_equal_value.rs", "src/filter/row_filter_greater_value.rs", "src/filter/column_filter_delete_col.rs", "src/chopper/types.rs"],
  [("value comparison", "FieldValue::eq, FieldValue::partial_cmp"), ("column lookup", "process_header of each filter")],
  ["headers and rows recorded by a sink behind the filter"])

p("C06", "Writing a table as dc and reading it back loses nothing",
  "Any table with supported column types, written as dc and read back, has the same column names, types, rows, timestamps and nulls and every value bit for bit. "
  "This holds for any number of columns and rows, for every combination of nulls in a row and for strings of any length and content.",
  ["inputs"], "all tables over the supported column types",
  "No test reads or writes a dc file at all.",
  ["src/write/dc_sink.rs", "src/source/dc_source.rs", "src/util/dc_util.rs"],
  [("null bitset", "DCSink::write_row, DCSource::next_row, get_bitset_bytes"), ("string length encoding", "write_string_value, read_string")],
  ["rows read back by the library", "csv that the command line tool makes of its own dc file"])

p("C07", "dc files follow the documented layout, in both directions",
  "Every dc file written is byte for byte the documented encoding of its table, and every well-formed dc file is read as exactly the table that it encodes, including files with user header data, display hints, unnamed columns (read as col_<index>) and strings stored with the long length form. "
  "Any byte-order, null-bit, length or type-code deviation would make files unreadable for other tools of this format.",
  ["inputs"], "all tables written and all well-formed dc encodings read",
  "No test compares dc bytes with anything; a reader and a writer that agree on a wrong layout would go unnoticed.",
  ["src/write/dc_sink.rs", "src/source/dc_source.rs", "src/util/dc_util.rs", "util/dcgen/src/main.rs"],
  [("field descriptors", "FieldDescriptor::new, DCSink::write_field_descriptors"), ("big-endian primitives", "DCSink::write_row, DCSource::next_row")],
  ["bytes of written files", "rows read by the library from files made by an independent encoder"])

p("C08", "Reading compressed data is the same as reading the plain data",
  "An input that is compressed with gzip, lz4 (frame format and LZ4Block format), lzf or zstd, or is the only entry of a zip archive, yields exactly the rows of the uncompressed input. "
  "This includes empty data, any compression level, block size or window, several members or frames following one another, and stored, deflated, bzip2 and zip64 archives with comments and extra fields. Archives that have several files or none, are split, encrypted or use another method are errors.",
  ["inputs", "configurations"], "all data and all valid encodings of it in the supported formats",
  "One small gzip file is tested; block boundaries, several frames, and all the other formats are not.",
  ["src/decompress/decompress.rs", "src/decompress/zip.rs", "src/decompress/zst.rs", "src/decompress/lz4_frame.rs", "src/decompress/crc32.rs", "src/input/single_file.rs"],
  [("decoder choice", "decompress::decompress"), ("zip directory walk", "new_reader_for_single_file_zip_archive"), ("multi-frame readers", "ZstReader::read, Lz4FramesReader::read")],
  ["rows read by the library out of the compressed input"])

p("C09", "Damaged or cut-off inputs are never taken for complete ones",
  "An input that is cut off in the middle of a compressed stream, of the data or directory of a zip archive or of a dc header or row (that is, anywhere but at the end of a complete gzip member, zstd or lz4 frame, lzf chunk or dc row) makes the run fail with an error, after delivering no more than a prefix of the rows of the intact input. "
  "Data whose bytes no longer match the checksum that its container stores (gzip, zip, zstd and lz4 with checksums) makes the run fail with an error as well.",
  ["inputs", "fault_sequences"], "every truncation point and every altered byte of data, over all supported containers",
  "No test reads a damaged file.",
  ["src/decompress/crc32.rs", "src/decompress/zip.rs", "src/decompress/zst.rs", "src/decompress/lz4_frame.rs", "src/source/dc_source.rs", "src/source/csv_source.rs"],
  [("crc check at end of zip entry", "Crc32Reader::read"), ("checksum verification of zstd frames", "ZstReader::verify_checksum"), ("end-of-data only on row boundaries", "DCSource::next_row")],
  ["result of driving a damaged input, and the rows delivered before it"])

p("C10", "No input bytes or arguments make the program crash, hang or exhaust memory",
  "For any bytes in any input, given any input options, the program ends with rows or with a reported error: it never panics, never loops without making progress and never allocates memory out of proportion to the data it has read.",
  ["inputs", "configurations"], "all byte strings as dc, csv, compressed or zip input, and all option values",
  "All test inputs are well-formed.",
  ["src/source/dc_source.rs", "src/util/dc_util.rs", "src/source/csv_source.rs", "src/source/csv_timestamp.rs", "src/decompress/zip.rs", "src/util/reader.rs", "src/util/timestamp_util.rs"],
  [("errors instead of panics for malformed data", "DCSource::new, FieldDescriptor::new, get_timestamp"), ("bounded allocation for sizes taken from the input", "read_string_bytes")],
  ["panics, exits, cpu time and allocation peaks of the process that reads the input"])

p("C11", "Each csv row gets exactly the instant its timestamp text denotes",
  "The timestamp of a csv row is the exact instant, in nanoseconds, that its timestamp column, or date and time column pair, denotes under the format in effect (given by the user, implied by the column name, or recognised from the first row) and the configured time zone where the text has none. "
  "Text that does not follow that format, a missing timestamp, a local time that does not exist or is ambiguous in that zone, and an instant before 1970 or beyond the 64-bit range are errors, never some other time.",
  ["inputs", "configurations"], "all instants, time zones, supported formats and epoch units",
  "Two tests parse a handful of timestamps in one zone; daylight saving changes, offsets, fraction digits, unit boundaries and malformed text are not met.",
  ["src/source/csv_timestamp.rs", "src/util/tz.rs", "src/source/csv_source.rs"],
  [("format detection", "get_timestamp_fmt_auto_with_index, get_timestamp_fmt_auto_with_datetimeindex"), ("conversion to nanoseconds", "get_timestamp, datetime_to_nanos")],
  ["timestamps of rows read by the library", "epoch time column printed by the command line tool"])

p("C12", "The printed time column denotes exactly the row's timestamp",
  "In csv output, the human-readable time is the local date and time of the row in the configured time zone with that instant's offset from UTC and exactly 0, 3, 6 or 9 fraction digits for s, ms, us and ns; the epoch time is the whole number of those units since 1970. "
  "Both are truncated, never rounded, to the units, for every 64-bit timestamp.",
  ["inputs", "configurations"], "all 64-bit timestamps, time zones, styles and units",
  "The tests print a few present-day timestamps, mostly in one style.",
  ["src/write/csv_sink.rs", "src/util/tz.rs", "src/source/csv_configs.rs"],
  [("time rendering", "CSVSink::write_row"), ("conversion to zone", "ChopperTz::timestamp")],
  ["time column of written csv"])

p("C13", "Begin and end times mean the instant that the user wrote",
  "A begin or end time given as YYYY, YYYYMM, YYYYMMDD, a date and time in one of the accepted layouts with or without fraction, an ISO 8601 time with offset or an epoch number of 1990 to 2033 in s, ms, us or ns is taken as exactly that instant, in the configured time zone where it has none. "
  "Instants that are outside the 64-bit nanosecond range act like the nearest end of that range, and anything else is an error.",
  ["inputs", "configurations"], "all instants, layouts, separators, fraction lengths, offsets, epoch units and time zones",
  "One unit test parses twenty strings.",
  ["src/util/timestamp_util.rs", "src/chopper/types.rs", "src/util/tz.rs"],
  [("layout list and unit ranges", "parse_datetime_range_element"), ("saturation", "datetime_to_nanos_saturating")],
  ["parsed range", "rows that the command line tool selects"])

p("C14", "Csv records become rows field by field",
  "Every record of a csv input becomes exactly one row whose values are the text of its fields, unquoted and trimmed, in order, under the names of the header line or col_<index>; missing trailing fields are null and a record with more fields than columns is an error. "
  "This holds for quoted delimiters, quotes and line breaks, for LF and CRLF, with or without a final line break, with blank lines and any text length. A byte order mark at the start is no part of the data. "
  "Delimiter and header use are as configured, or else guessed from the first two lines (lines too long for the 8 kB that are looked at count as missing, which means comma and no header): the delimiter is the most frequent of comma, tab and space (the earlier listed on equal counts), and there is a header if the kinds of values (integer, number, text) in those lines differ.",
  ["inputs", "configurations"], "all csv texts, delimiters and header settings",
  "A few tidy files of some rows are tested; quoting, ragged records, multi-byte text, buffer boundaries and header guesses are not.",
  ["src/source/csv_source.rs", "src/util/csv_util.rs", "src/util/reader.rs", "src/source/csv_factory.rs"],
  [("record to row", "CSVSource::update_row"), ("guesses from preview lines", "guess_delimiter, guess_has_header")],
  ["header and rows read by the library"])

p("C15", "Csv output has one line per row and one exact cell per column",
  "Csv output is one header line followed by one line per row, each with the same number of cells, separated by the configured delimiter and ended by a line feed: the time cell first, unless it is turned off, under the configured or default name, then the columns in order. "
  "Integers are printed in decimal, strings verbatim and nulls as nothing; floating point numbers are printed so that reading them gives the same number.",
  ["inputs", "configurations"], "all tables, value types and output options",
  "The tests print string columns only.",
  ["src/write/csv_sink.rs", "src/source/csv_configs.rs", "src/chopper_cli.rs"],
  [("header and row printing", "CSVSink::write_csv_header, CSVSink::write_row")],
  ["bytes of written csv"])

p("C16", "A directory reads as its files one after another, columns by name",
  "A directory input yields the rows of its files in the order of their names, ignoring subdirectories, under the column order of the first file: columns of later files are matched by name, wherever they are, and extra ones are dropped. "
  "A later file that lacks a column, or has it with another type, is an error once it is reached, never misaligned rows; names that repeat stay where they are as long as later files start with the same columns. "
  "Files may be of any mix of supported formats and compressions, and may have no rows.",
  ["inputs", "configurations"], "all file sets, column permutations, extra columns and mixes of formats",
  "One directory of three files is tested, and one unit test looks at a permutation of five columns.",
  ["src/source/multi_file_source.rs", "src/input/files_in_dir_provider.rs", "src/transport/dir/file.rs", "src/input/input_factory.rs"],
  [("column swap map", "check_headers_match_and_return_swap_map, SerialMultiFileSource::next_row"), ("sorted listing", "FilesInDirPathProvider::new")],
  ["header and rows read by the library from generated directories"],
  [("swap_map", "sequence of swaps that brings a row of the current file to the common column order", "src/source/multi_file_source.rs")])

p("C17", "The same content reads the same however its format is determined",
  "Content yields the same header and rows whether its format and compression are told by its file name, given by the format option (with or without leading dot, one per input, the last one standing for all further inputs), or recognised from the content of a file with a meaningless name or of standard input. "
  "A format given by the user is used even if the file name suggests another one, and a format that is neither known nor recognisable is an error.",
  ["inputs", "configurations"], "all contents, supported format and compression combinations and ways to determine the format",
  "The tests open two files by telling names.",
  ["src/input/single_file.rs", "src/decompress/decompress.rs", "src/source/dc_factory.rs", "src/source/csv_factory.rs", "src/chopper_cli.rs", "src/input/input_factory.rs"],
  [("format decision", "SingleFileInputFactory::create_source_from_previewer"), ("magic numbers", "is_compressed_using_previewer, DCFactory::can_create_from_previewer")],
  ["header and rows read by the library and the command line tool"])

p("C18", "How input bytes arrive never changes what is read",
  "The header and rows read from an input depend on its bytes alone, not on how the bytes are cut into pieces by successive reads of a file, pipe or network connection. "
  "Previewing the start of an input to determine its format neither loses, repeats nor reorders any byte, for inputs of any length, including those right at the size of the preview.",
  ["inputs", "schedules"], "all contents and all ways to cut them into reads",
  "Reads are always whole in tests, apart from one unit test of the preview with a 17 byte text.",
  ["src/util/reader.rs", "src/source/csv_source.rs", "src/source/dc_source.rs", "src/decompress/zst.rs", "src/decompress/lz4_frame.rs", "src/decompress/crc32.rs"],
  [("preview buffer handed over to the reader", "ChopperBufPreviewer::new, ChopperBufReader::read, fill_buf")],
  ["header and rows read by the library through a transport that controls the size of each read"])

p("C19", "Read and write failures always surface as failures",
  "If reading an input fails at any point, or writing the output fails at any point, the run fails with an error instead of ending as if the data were complete, and no row is delivered that the intact input would not have delivered at that place. "
  "If the run succeeds then all of its output has been handed over to the operating system in full.",
  ["fault_sequences", "inputs"], "a failure at every single read or write call, over all formats, compressions and sinks",
  "No test injects a failure.",
  ["src/source/dc_source.rs", "src/source/csv_source.rs", "src/write/csv_sink.rs", "src/write/dc_sink.rs", "src/driver/driver.rs", "src/util/reader.rs", "src/decompress/zst.rs", "src/error.rs"],
  [("error propagation out of sources and sinks", "CliResult throughout"), ("flush at the end", "Driver::flush, CSVSink::flush, DCSink::flush")],
  ["result of the run with a transport or sink that fails at a chosen call", "exit status of the command line tool writing to full or closed outputs"])

p("C20", "Processing is streaming, with bounded lookahead and memory",
  "Rows are delivered while the input is still being read: at any time no more than one row per input plus fixed-size buffers has been read ahead, and memory use does not grow with the number of rows processed. "
  "Reading an input stops soon after its first row at or after the end time, so that a selection from an unending input finishes.",
  ["inputs", "histories"], "all inputs, however long, in every format and compression",
  "The tests read a few hundred bytes and look at the final output only.",
  ["src/driver/driver.rs", "src/driver/source_row_buffer.rs", "src/source/csv_source.rs", "src/source/dc_source.rs", "src/util/reader.rs", "src/decompress/zst.rs", "src/source/multi_file_source.rs"],
  [("one row buffer per source", "SourceRowBuffer"), ("stop at end time", "match_next_row")],
  ["reads, deliveries and allocation peak, on a common event counter"])

p("C21", "The command line tool reports success and failure truthfully",
  "The tool exits with status 0 exactly if everything that was asked for was done, and otherwise with non-zero status and a message on standard error; standard output holds nothing but data. "
  "Reading standard input and writing standard output give byte for byte the same as naming files, the output format follows the output name, conflicting or unknown options and unusable output names are rejected, and asking for backtraces changes neither data nor status.",
  ["configurations", "inputs"], "all combinations of options, inputs and outputs",
  "No test runs the command line tool.",
  ["src/chopper_cli.rs", "src/cli_app.rs", "src/error.rs", "src/write/factory.rs", "src/input/input_factory.rs"],
  [("exit status", "handle_drive_error"), ("argument rules", "CliApp::create_cli_app"), ("sink choice", "new_header_sink")],
  ["exit status, standard output, standard error and files of the command line tool"])

p("C22", "Inputs read over http are the same as local files",
  "An http URL as input yields exactly the rows of the served content, however the server frames it (with length, chunked or until close) and cuts it into packets, in every supported format and streaming compression (zip files need to be local ones). "
  "A status that is not a success, a connection that cannot be made and a body that ends before its announced length are errors.",
  ["inputs", "fault_sequences", "schedules"], "all contents, framings, statuses and connection cut-offs",
  "No test opens a connection.",
  ["src/transport/streaming/http.rs", "src/transport/streaming/previewer_factory.rs", "src/input/single_file.rs"],
  [("status check", "HttpTransport::open")],
  ["rows read from a loopback http server"])

p("C23", "The timestamp column is found by the documented priority of names",
  "Unless it is specified, the timestamp column of a csv input is chosen by name, ignoring case: first time followed by a unit (seconds, millis, micros, nanos), then date, joined with time if there is one, then time, then the same three with a common prefix, and else the first column; among equals the leftmost column counts. "
  "A specified column name or index is used as is, and a unit at the end of the name of the chosen column (seconds, millis, micros, nanos) determines how numbers are read; unknown names and indexes are errors.",
  ["inputs", "configurations"], "all header lines and all column specifications",
  "The tests use headers with one obvious timestamp column.",
  ["src/source/csv_timestamp.rs", "src/source/csv_configs.rs", "src/chopper_cli.rs"],
  [("name matching", "get_timestamp_col")],
  ["timestamps of rows read by the library and the command line tool"])

p("C24", "Multi-index removal and file comparison helpers are exact",
  "Removing elements at any ascending list of indices from a sequence leaves exactly the other elements, in order. "
  "Comparing two files says that they are the same if and only if they have the same bytes, for files of any size.",
  ["inputs"], "all sequences and index lists, and all pairs of files",
  "Eight small cases of the first are tested, none of the second.",
  ["src/util/remove_multiple.rs", "src/util/file.rs"],
  [("rotation based removal", "remove_multiple"), ("blockwise comparison", "are_contents_same")],
  ["results of the helpers"])

p("C25", "No input causes memory errors or invalid text",
  "Whatever the input, the program never accesses memory out of bounds, uninitialised or after it was freed, never triggers undefined behaviour, and every text value and column name that it delivers is valid UTF-8.",
  ["inputs"], "all inputs in all formats",
  "The tests run on well-formed inputs and without instrumentation.",
  ["src/util/reader.rs", "src/source/dc_source.rs", "src/util/dc_util.rs", "src/source/csv_source.rs", "src/util/remove_multiple.rs", "src/decompress/zst.rs"],
  [("safe code with checked conversions", "read_string_bytes, make_string_no_cr")],
  ["sanitizer and interpreter reports", "bytes of delivered strings"])

p("C26", "The time zone is the one configured, and is needed only when it is used",
  "Times without offset are read and human-readable times are printed in the zone of the time zone option, else of the CHOPPER_TZ environment variable; names in a custom map given by an embedding program come before the built-in ones, and an unknown zone (also an environment variable that is not valid text) is an error. "
  "Without a configured zone everything that does not depend on one works, and anything that does depend on one is an error rather than a guess.",
  ["configurations", "inputs"], "all combinations of option, environment, custom map and time-dependent operations",
  "One zone is hard-coded in most of the tests.",
  ["src/util/tz.rs", "src/chopper_cli.rs"],
  [("zone resolution", "ChopperTz::resolve_timezone"), ("errors when there is no zone", "ChopperTz::from_local_datetime, ChopperTz::timestamp")],
  ["times read and printed by the library and the command line tool"])

p("C27", "Embedding programs can add formats and transports",
  "Source factories added by an embedding program are asked before the built-in ones, in the order given, by format name as well as by content, and get the decompressed content from its first byte on; when they decline, the built-in ones are used as if nothing had been added. "
  "They serve the files of directories, too. Added transports are asked before the built-in ones, too, and the first one that recognises a path opens it, with all formats and streaming compressions, and in merges and ranges just like built-in ones; a path that nothing recognises is an error.",
  ["configurations", "inputs"], "all added factories and transports, and all paths and contents",
  "No test adds a factory or a transport.",
  ["src/input/input_factory.rs", "src/input/single_file.rs", "src/source/source_factory.rs", "src/transport/streaming/previewer_factory.rs"],
  [("factory order", "InputFactory::new_with_optional_csv"), ("factory loop", "SingleFileInputFactory::create_source_from_previewer")],
  ["calls received by added factories and transports, and rows delivered"])

p("C28", "The cost of a run is proportional to the data",
  "The processor time of a run, and the memory that it asks for in all, grow in proportion to the amount of data, in whichever direction the data grow: rows, columns, length of texts, files of a directory, members or blocks of compressed data, rows before the begin time, rows that a step makes of one, and in however small pieces the data arrive. "
  "No direction makes it grow with the square (the number of inputs that are merged, and later files of a directory that have the same many columns in another order, aside).",
  ["inputs", "configurations"], "all inputs and chains, in every direction in which they can grow",
  "The tests run on files of a few lines, where any cost goes unnoticed.",
  ["src/driver/driver.rs", "src/source/csv_source.rs", "src/source/dc_source.rs", "src/source/multi_file_source.rs", "src/decompress", "src/write", "src/util/reader.rs", "src/input/files_in_dir_provider.rs"],
  [("one pass over the rows", "Driver::drive, Driver::process_row"), ("readers in blocks", "ZstReader::read, ChopperBufPreviewer")],
  ["processor time of the thread and bytes allocated in runs of growing size"])

p("C29", "A run depends on nothing but its inputs and touches nothing but its output",
  "A run of the tool leaves everything in the file system as it was, except for the content of the file named as the output (which keeps its identity, links and permissions if it is there already): inputs keep bytes, permissions and modification times, nothing is left behind, also by runs that fail, and no other file is altered or program started on the way; local inputs need no network. "
  "Naming one of the inputs, or a file in a directory that is an input, as the output, in whatever spelling or through a symbolic link, is refused before anything is altered, and a run that cannot open one of its inputs leaves what was at the output's name. "
  "The result depends only on arguments, the bytes of the inputs and CHOPPER_TZ: it is the same from any working directory, under any other environment variables, at any time, whatever was in the output before, and however often the run is repeated.",
  ["configurations", "inputs", "histories"], "all arguments and inputs, and all states of the file system, environment and clock around the run",
  "The tests run in one working directory and environment, and look at the output only.",
  ["src/chopper_cli.rs", "src/write", "src/transport", "src/input", "src/decompress", "chop/src/main.rs"],
  [("outputs created after inputs are opened", "setup_graph"), ("files opened", "CSVSink::new, DCSink::new, FileTransport::open, SeekableFileTransport::open")],
  ["files around a run before and after it", "calls of the tool that open or alter files, start programs, connect", "bytes of outputs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
