"""Writes properties.jsonl (kept as a script so that the anchors are edited in one place)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
X, B, C, S, K, A, BF, BR, RL = ("rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py", "rxls/series.py",
   "rxls/chunk/chunk.py", "rxls/chunk/casts.py", "rxls/biff.py", "rxls/biff_recs.py", "rxls/rels.py")
T0 = "The six existing tests only encode and decode single BIFF records; none of them reads a workbook. "
p("C01", "XLSX: every cell lands in its row and column with its value, none invented",
  "Reading a sheet of an XLSX file without options gives one table row for every non-empty sheet row, in order, and one column for every sheet column that holds a value, in sheet order (A to XFD); each number, boolean, date, shared, formula or inline text cell appears exactly once, at its own row and column, with its own value. Every other position is null, and the table extends exactly to the last row that holds a value, wherever the individual columns start and end. A number or boolean whose style is neither a recognised number format nor a date format comes back as its stored text; a boolean with any other style is the number 1 or 0.",
  ["inputs"], "all worksheets: any arrangement of cells, kinds, gaps, columns starting late or ending early",
  T0 + "The guarantee ranges over all sheet shapes, cell kinds and gap patterns.",
  [X, S, K, C], [("worksheet parser", X + ":XlsxWorkbook.iter_worksheet"), ("column letters", X + ":col_idx"), ("column accumulator", S + ":xl_series.add"), ("table assembly", C + ":read")],
  ["rxls.reader.read"], [{"name": "row counter", "meaning": "table row of the cell being parsed", "where": X}, {"name": "column end row", "meaning": "last row of the column that holds a value", "where": S}])
p("C02", "XLSB: every cell lands in its row and column with its value, none invented",
  "Reading a sheet of an XLSB file without options gives one table row for every non-empty sheet row, in order, and one column for every sheet column that holds a value, in sheet order; each RK number, real, boolean, formula result, shared or inline text cell appears exactly once, at its own row and column, with its own value. Every other position is null, and the table extends exactly to the last row that holds a value. Records that are not cells, blank cells and error cells contribute no value.",
  ["inputs"], "all worksheets: any arrangement of records, kinds, gaps, interleaved unrelated records",
  T0 + "The guarantee ranges over all record streams.",
  [B, BF, S, K, C], [("record loop", B + ":XlsbWorkbook.iter_worksheet"), ("record scanner", BF + ":scan_biff"), ("column accumulator", S + ":xl_series.add"), ("table assembly", C + ":read")],
  ["rxls.reader.read"])
p("C03", "The same sheet saved as XLSX and as XLSB reads to the same table",
  "A sheet whose numbers carry recognised number or date formats, saved once as XLSX and once as XLSB, reads into equal tables (column names, types and values) for the same arguments, or both reads are rejected. This holds for every combination of header, skip, take, lookup, filter, null-value, conflict and dtype options.",
  ["inputs", "configurations"], "all sheets expressible in both formats, all option combinations",
  T0 + "The two readers are separate implementations; agreement must hold over sheets times option combinations.",
  [X, B, C, S, K], [("xlsx reader", X), ("xlsb reader", B), ("shared option handling", C + ":read")], ["rxls.reader.read"])
p("C04", "Date serials become the exact timestamp, to the millisecond",
  "A number in a date- or time-formatted cell is read as timestamp[ms]: serials of 1 or more are days counted from 1900-01-01 = 1 with Excel's fictitious 1900-02-29 (serial 60) taken into account, and serials below 1 are a time of day on 1970-01-01. The result is the nearest millisecond to the exact value of the stored number, so a serial saved from a given date and time reads back as exactly that date and time.",
  ["inputs"], "all serials Excel can hold (0 .. 2958465.99999), whole seconds and milliseconds, RK and double encodings, both formats",
  T0 + "Rounding, the 1900 leap-year boundary and the sub-day range only show on particular serials.",
  [A, K], [("serial conversion", A + ":f8_to_ms_win"), ("chunk preparation", K + ":chunk.prepare")], ["rxls.reader.read"])
p("C05", "The number format of a cell decides whether it is a date, a number or text",
  "A numeric cell (a boolean never) is read as a timestamp exactly when its style refers to a built-in date/time format (14-22, 45-47) or to a custom format whose first section shows a day, month, year, hour or second outside quoted literals, escaped, padding (_x) and filler (*x) characters and bracketed colours, locales or conditions (elapsed-time brackets such as [h] or [MM] count as time). In XLSX a cell is a number when its style refers to built-in formats 1-4, 37-40 or 48, or to a non-date custom format that is 0 or shows two decimals, and text as stored otherwise; in XLSB every other numeric cell is a number. Cell style indices count cell formats only, never the base style formats, and the id and length of a custom format do not matter.",
  ["inputs"], "all style tables and format codes",
  T0 + "Format codes form an open grammar and style tables can be of any size.",
  [X, B], [("xlsx styles", X + ":XlsxWorkbook.styles"), ("xlsb styles", B + ":XlsbWorkbook.styles")], ["rxls.reader.read"])
p("C06", "Text arrives complete and unaltered",
  "The text of a cell - shared plain, shared rich text (all runs joined, phonetic hints excluded), formula result or inline string - is returned in full and character for character, for any Unicode content and any length Excel allows; in XLSX whitespace around the text is trimmed and a cell with only whitespace counts as empty. Every shared-string cell shows the entry of the shared table it points to, whatever empty or null entries come before it.",
  ["inputs"], "all strings up to 32767 characters, all shared tables, all run structures",
  T0 + "Encoding, buffering and indexing faults depend on particular characters, lengths and table positions.",
  [X, B, K], [("xlsx shared strings", X + ":XlsxWorkbook.shared"), ("xlsb shared strings", B + ":XlsbWorkbook.shared"), ("lookup by index", K + ":chunk.prepare")], ["rxls.reader.read"])
p("C07", "Error values and caller-given null values are read as missing cells",
  "A text cell (shared, formula or inline) whose text is an Excel error string (#N/A, #DIV/0!, ... including the Russian forms) or is listed in, or accepted by, null_values is treated exactly as if the cell were absent: it is null, does not make its row non-empty, and does not influence the type of its column. No other text cell is dropped, whatever its position in the shared table, numbers and dates of recognised formats never are, and error cells always are absent.",
  ["inputs", "configurations"], "all sheets, all null-value lists and predicates, both formats",
  T0 + "The skip happens on three paths per format and interacts with typing and row dropping.",
  [X, B], [("null predicate", X + ":XlsxWorkbook.__init__"), ("null predicate", B + ":XlsbWorkbook.__init__"), ("null shared strings", X + ":XlsxWorkbook.shared"), ("null shared strings", B + ":XlsbWorkbook.shared")], ["rxls.reader.read"])
p("C08", "Column types: date, text, float, and integer only when lossless",
  "A column whose values are all dates is timestamp[ms], all text or no value at all is large_string, and all numbers is int64 exactly when for every value rounding to float_precision digits equals truncating it and its magnitude is below 2^63, and float64 otherwise. In a float64 column every value equals the stored double bit for bit, in an int64 column every value is the stored number without its sub-precision fraction. Only the rows that end up in the table count for the type.",
  ["inputs", "configurations"], "all columns of numbers, all float_precision values, all null patterns and encodings",
  T0 + "Typing depends on all the values of a column together.",
  [K, A], [("type decision", K + ":chunk.concatenate"), ("integer test", A + ":f8_is_i8")], ["rxls.reader.read"])
p("C09", "Mixed columns follow conflict_resolve and never lose or distort a value",
  "In a column mixing dates, numbers and text: with 'no' the column is text; 'temporal' turns numbers and date-like text into timestamps when the column holds dates; 'numeric' turns numeric text into numbers when the column holds numbers and text; 'all' does both, reading numeric text in a date column as a date serial. If any part cannot be converted the whole column falls back to text, in which every text cell is unchanged, every number is written so that it parses back to the same number, and every date is its ISO timestamp.",
  ["inputs", "configurations"], "all mixtures of runs of kinds, all four strategies, both formats, shared and direct strings",
  T0 + "The outcome depends on how runs of kinds follow each other in a column.",
  [K, A, S], [("conflict resolution", K + ":chunk.concatenate"), ("casts", K + ":chunk.as_temporal"), ("casts", K + ":chunk.as_numeric")], ["rxls.reader.read"])
p("C10", "Date text in date columns is parsed to the instant it names",
  "When conflict resolution converts text to dates, text in any default format (ISO, d/m/Y, d.m.Y, d-m-Y and their two-digit-year forms, each alone or followed by a space or T and H:M:S or H:M, or a bare time of day) or, when datetime_formats is given, in one of those formats (the first that fits), becomes exactly the instant it names, and a bare time becomes that time on 1970-01-01 as for date cells. This includes midnight, 1970-01-01 and earlier dates. Text that matches no format is never turned into a date.",
  ["inputs", "configurations"], "all dates 1900-2200 and times, all default formats, all caller formats, columns mixing formats",
  T0 + "Sentinel and overflow faults show only on particular instants or combinations of formats.",
  [A, K], [("multi-format parser", A + ":mf_strptime"), ("single-format parser", A + ":_strptime")], ["rxls.reader.read"])
p("C11", "Header rows name the columns, uniquely, and only the rows below are data",
  "With a one-row header each column is named by its header cell's text (numbers without needless decimals), with an N-row header by its non-empty header cells joined top to bottom with ', ' after empty cells above its topmost filled one are filled from the nearest left column that has a header; a column without header cells is 'Unnamed', a list names the columns verbatim and is rejected when its length differs from the column count, and no header gives a distinct placeholder ending in the column position. When names taken from the sheet repeat, the first keeps the name and later ones get '.1', '.2', ... so all names are unique. The data is exactly what lies below the header rows, and a sheet with nothing below the header gives an empty table.",
  ["inputs", "configurations"], "all header grids, heights, name collisions, header argument forms",
  T0 + "Filling and de-duplication depend on the combination of all header cells.",
  [C, S], [("header builder", C + ":__make_header"), ("header extraction", S + ":xl_series.to_utf8")], ["rxls.reader.read"])
p("C12", "lookup_head finds the header row, or the read is rejected",
  "With a regular expression, the header starts at a row within the first lookup_size rows that holds a cell whose text matches it, and that is the first such row of the column of the cell; with a column index it starts at the first non-empty cell of that column within those rows; everything above is dropped and everything below follows as if those rows were not in the sheet. If there is no such row the read fails, whatever lies beyond lookup_size.",
  ["inputs", "configurations"], "all sheets, patterns, column indices and lookup sizes",
  T0 + "Depends on position of the match relative to gaps, chunk boundaries and the window.",
  [C], [("header search", C + ":__find_header"), ("offset arithmetic", C + ":read")], ["rxls.reader.read"])
p("C13", "Row options select exactly the documented window of rows",
  "skip_rows drops that many rows from the top of the sheet, empty ones included, whether or not the file stores them; take_rows=N>0 stops after row N (0-based) of what remains and 0 means no limit; take_rows_non_empty=True keeps empty rows as null rows up to the last value while False drops them; skip_rows_after_header drops that many further rows below a header of one or more rows. For every combination of these options the table holds exactly the corresponding rows of the sheet, aligned across all columns.",
  ["inputs", "configurations"], "all sheets with empty rows anywhere and all combinations of the four options with header and lookup",
  T0 + "Off-by-one faults need particular combinations of empty rows and options.",
  [X, B, C, K], [("xlsx row counting", X + ":XlsxWorkbook.iter_worksheet"), ("xlsb row counting", B + ":XlsbWorkbook.iter_worksheet"), ("offset and length", C + ":read"), ("chunk slicing", K + ":chunk.take_over")], ["rxls.reader.read"])
p("C14", "skip_cols removes exactly the given sheet columns",
  "Reading with skip_cols equals reading a sheet from which the cells of those columns (0-based, A = 0) have been deleted: the other columns keep their order, names, types and values, and rows left without any value count as empty. Indices outside the sheet have no effect.",
  ["inputs", "configurations"], "all sheets and sets of column indices, one to three letter columns",
  T0 + "Needs arbitrary sparse columns and interaction with empty rows.",
  [X, B], [("column test", X + ":XlsxWorkbook.iter_worksheet"), ("column test", B + ":XlsbWorkbook.iter_worksheet"), ("column letters", X + ":col_idx")], ["rxls.reader.read"])
p("C15", "Row filters keep exactly the rows the filter columns select",
  "With row_filters (regular expressions on column names, or column positions) the table holds, in order and complete, exactly those data rows where the filter columns have values: any of them with 'or', all of them with 'and', or the left-to-right combination given by a list of operators; all columns are filtered by the same rows. A filter that selects nothing is rejected, and a filter that matches no column filters nothing.",
  ["inputs", "configurations"], "all null patterns over filter columns, all strategies, with offsets from headers and skips",
  T0 + "Row selection crosses chunk boundaries and column ends in arbitrary ways.",
  [C, K], [("mask construction", C + ":read"), ("masked chunk slicing", K + ":chunk.take_over"), ("masked chunk slicing", K + ":chunk.take")], ["rxls.reader.read"])
p("C16", "dtypes gives each addressed column exactly the requested type, or fails",
  "With dtypes - one type for all columns, a mapping by column name, or one type per column - each addressed column of the result has exactly the requested type (including unit and time zone) and the values that casting the column read without dtypes gives, and all other columns are unchanged. If a value cannot be cast, or the number of types differs from the number of columns, the read fails.",
  ["inputs", "configurations"], "all column types and target types, all three forms of dtypes",
  T0 + "Ranges over pairs of source and target types and columns.",
  [C], [("cast loop", C + ":read")], ["rxls.reader.read"])
p("C17", "The requested sheet, by name or position, is the sheet that is read",
  "read returns the content of the worksheet with the given name or 0-based position in workbook order, independent of the name of the file, part file names, relationship ids and their order, relative or absolute targets, hidden state, and the presence of other parts; an unknown name, a position out of range or a file that is no XLSX/XLSB workbook is rejected.",
  ["inputs", "configurations"], "all workbooks with several sheets, all relationship layouts",
  T0 + "Ranges over package layouts.",
  [X, B, RL, BR, C], [("sheet table", X + ":XlsxWorkbook.sheets"), ("sheet table", B + ":XlsbWorkbook.sheets"), ("relationships", RL + ":Relationship.scan_xml"), ("sheet record", BR + ":BrtBundleSh.loadr")], ["rxls.reader.read"])
p("C18", "A failure while reading is raised, never a silently shortened table",
  "If reading the sheet part fails - damaged or truncated sheet XML, an I/O or checksum error of the archive, or an exception from the row_callback or null_values function supplied by the caller - read raises; it never returns a table that is missing the rows after the failure.",
  ["fault_sequences", "inputs"], "every position of the fault in the sheet, every fault kind, both formats where the fault exists",
  T0 + "The XLSX sheet is parsed on a background thread; the fault may strike at any row.",
  [X, C], [("worker thread and queue", X + ":XlsxWorkbook.iter_worksheet")], ["rxls.reader.read"])
p("C19", "Reads terminate, clean up and do not influence each other",
  "Every read returns or raises; afterwards no thread started by it is running and a file it opened is closed, also after errors. Reading the same input again, from the same stream object, or from several threads at once, gives equal tables, and neither the input nor the arguments are modified.",
  ["histories", "schedules", "fault_sequences"], "all sequences of reads, succeeding or failing, sequential or concurrent",
  T0 + "Ranges over histories of reads.",
  [X, C], [("worker thread", X + ":XlsxWorkbook.iter_worksheet"), ("sentinel", X + ":XlsxWorkbook.iter_worksheet"), ("context managers", X + ":XlsxWorkbook.__exit__")], ["rxls.reader.read", "threading.enumerate", "/proc/self/fd"])
p("C20", "BIFF12 records survive encoding and scanning, whatever the stream",
  "Any sequence of records with valid ids and payloads up to the format's limits, encoded one after another, is scanned back to the same sequence of ids and payloads, and scanning with a set of ids gives exactly the sub-sequence with those ids. The encoded size prefix is the canonical 7-bit form, encoding to a stream and to bytes agree, and a stream cut anywhere yields exactly the complete records before the cut. Every named record type has an id of its own and gives its name back; those every workbook consists of have the ids of [MS-XLSB].",
  ["inputs"], "all record sequences, payload sizes 0 to above 2 MiB (1 to 4 byte sizes), all cut points, all id sets, all named record types",
  "The tests encode one id and two payload sizes; they do not reach two-record streams, id filters, cuts, or the 3 and 4 byte size forms.",
  [BF, "rxls/biff_enum.py"], [("encoder", BF + ":record.as_binary"), ("size prefix", BF + ":dump_sz"), ("scanner", BF + ":scan_biff")], ["rxls.biff.record", "rxls.biff.scan_biff", "rxls.biff.dump_sz"])
p("C21", "RK numbers decode to the value they encode, and encode losslessly",
  "An RK-encoded cell reads as the value [MS-XLSB] defines for its 32 bits: a signed 30-bit integer or the top 30 bits of a double, divided by 100 when flagged. Encoding integers below 2^29 in magnitude, numbers with at most two decimals in that range times 0.01, or doubles whose low 34 bits are zero, and decoding them again gives the same number.",
  ["inputs"], "all 2^32 RK words; all encodable numbers including negatives and zero",
  T0 + "2^32 inputs with sign, flag and range boundaries.",
  [A, B, K], [("decoder", A + ":rk_to_f8"), ("encoders", A + ":f8_to_rk"), ("encoders", A + ":i8_to_rk")], ["rxls.reader.read", "rxls.chunk.casts"])
p("C22", "Serial and millisecond timestamps convert back and forth without loss",
  "Converting a millisecond timestamp from 1900-01-01 to 9999-12-31 to a serial and back, or a serial on a millisecond to milliseconds and back, returns the original. Excepted are only the serials of 1970-01-01, which stands for bare times, and serial 60, a day that does not exist.",
  ["inputs"], "all millisecond timestamps of the Excel date range",
  T0 + "Needs dates on both sides of 1970 and 1900-03-01.",
  [A], [("serial to ms", A + ":f8_to_ms_win"), ("ms to serial", A + ":ms_to_f8_win")], ["rxls.chunk.casts"])
p("C23", "What the package-structure encoders write, the decoders read back",
  "A wide string (including null, empty, and non-BMP text), several of them in a row, and a relationship entry with any id and target text and a type name without '/' read back equal to what was written; a sheet record gives back its state, id, relationship id and name.",
  ["inputs"], "all strings, all sequences of strings, all attribute values",
  T0 + "Character counts and escaping depend on the text.",
  [BR, RL], [("wide string", BR + ":xstr"), ("sheet record", BR + ":BrtBundleSh"), ("relationship", RL + ":Relationship")], ["rxls.biff_recs", "rxls.rels"])
p("C24", "Equivalent files read alike: only the content counts",
  "Changing how a workbook is stored without changing its content - attribute order, white space and comments between elements, character references or CDATA, XML encoding, unused elements or records, missing optional parts, archive compression and member order, worksheet part names, transitional or strict namespaces, how a text or number is stored or spelled, unused or reordered entries of the string and style tables - does not change the table. The same bytes given as path string, path object or binary stream give the same table.",
  ["inputs", "configurations"], "all workbooks times all equivalent serialisations",
  T0 + "Ranges over pairs of equivalent files.",
  [X, B, RL, BF], [("event handlers", X + ":XlsxWorkbook.iter_worksheet"), ("record scanner", BF + ":scan_biff"), ("part table", X + ":XlsxWorkbook.sheets")], ["rxls.reader.read"])
p("C25", "A column returns the same values however and however often it is sliced",
  "For a column filled cell by cell, asking for any offset, length or row mask, as text or typed, gives the corresponding slice of the cells added so far (null where none was added, padded with nulls to the requested length; masks apply to columns that hold at least one cell), and earlier requests never change later answers. A second cell for a row already filled is ignored.",
  ["histories", "inputs"], "all histories of additions and requests on one column",
  T0 + "Ranges over histories mixing additions and requests with lazily converted storage.",
  [S, K], [("accumulator", S + ":xl_series.add"), ("slicing", K + ":chunk.take_over"), ("lazy conversion", K + ":chunk.prepare")], ["rxls.series.xl_series"],
  [{"name": "pending cells", "meaning": "run of cells of one kind not yet packed", "where": S}, {"name": "chunks", "meaning": "packed runs, converted in place on first use", "where": S}])
p("C26", "Arbitrary and damaged files are rejected or read, never hang or corrupt memory",
  "For any bytes given as a workbook - random, truncated, or a valid workbook with damaged parts - read terminates and either raises an ordinary exception or returns a well-formed table whose columns have equal lengths and pass Arrow's full validation; the process survives.",
  ["inputs", "fault_sequences"], "all byte strings; structured damage to every part of valid workbooks",
  T0 + "Ranges over malformed inputs; conversions use unchecked buffers.",
  [X, B, BF, K, A], [("parsers", X), ("record scanner", BF + ":scan_biff"), ("unchecked take", "rxls/chunk/arrow.py:take"), ("unchecked buffers", A + ":_unsafe_array")], ["rxls.reader.read", "pyarrow validate(full=True)"])
p("C27", "No size threshold changes a result",
  "The guarantees hold unchanged up to the limits of the formats: more than 65536 rows, the last column XFD, more than 65536 shared strings, thousands of cell styles, texts of 32767 characters, long runs of one kind and very many short runs. A sheet made by repeating a block of rows reads to the repeated rows of that block.",
  ["inputs"], "all sheets up to the format limits",
  T0 + "Thresholds at 127/128, 255/256, 16383/16384 and 65535/65536 are out of reach of small examples.",
  [X, B, BF, S, K], [("column letters", X + ":col_idx"), ("size prefix", BF + ":scan_biff"), ("index widths", K + ":chunk.xlsx_strings"), ("style index width", B + ":XlsbWorkbook.styles")], ["rxls.reader.read"])
p("C28", "The row callback reports rows and changes nothing",
  "row_callback is called without arguments, at least once for every row of the file that is read and at most once per row of the file plus once, before read returns; giving a callback never changes the table.",
  ["inputs", "configurations"], "all sheets and option combinations",
  T0 + "No test passes a callback.",
  [X, B], [("row events", X + ":XlsxWorkbook.iter_worksheet"), ("row events", B + ":XlsbWorkbook.iter_worksheet")], ["rxls.reader.read"])
p("C29", "Arguments that cannot be honoured are rejected, not ignored",
  "read raises for arguments it cannot honour, whatever the sheet holds: a negative or non-integer skip_rows or take_rows, row_filters that are neither a string nor strings nor indices of one kind, an unsupported row_filters_strategy or a list of operators that does not match the filter columns (where two or more columns are combined), patterns that are not valid regular expressions, and a list of header names or dtypes whose length is not the number of columns. It leaves no thread running.",
  ["inputs", "configurations"], "all sheets, all arguments of the listed kinds",
  T0 + "No test passes an invalid argument.",
  [C, X, B], [("argument checks", C + ":read"), ("row filters", C)], ["rxls.reader.read"])
p("C30", "An open workbook serves its sheets in any order, as often as wanted",
  "An open XlsxWorkbook or XlsbWorkbook lists its worksheets in workbook order, and iterating over a worksheet yields its cells - row, column, kind and value - in reading order, the same whether sheets are iterated once, again, interleaved, or only in part, and whatever was read before. A sheet that does not exist, and a workbook that is not open, raise. Abandoned iterations and leaving the workbook leave no thread and no open file behind.",
  ["histories", "inputs"], "all histories of iterations over the sheets of a workbook",
  T0 + "Ranges over histories of iterations with lazily loaded tables and a background thread.",
  [X, B], [("xlsx iteration", X + ":XlsxWorkbook.iter_worksheet"), ("xlsb iteration", B + ":XlsbWorkbook.iter_worksheet"), ("cached tables", X + ":XlsxWorkbook.shared")], ["rxls.reader.xlsx.XlsxWorkbook", "rxls.reader.xlsb.XlsbWorkbook"])
p("C31", "Selecting and converting packed cells commute and leave the source alone",
  "Selecting from a chunk of cells by index, slice or mask gives a chunk of exactly those cells, of the same kind; selecting from a sequence of chunks by offset and length or by mask gives exactly those cells, padded with nulls to the length asked for. Converting to Arrow, text, numbers or dates before or after a selection gives the same values (or is rejected both times), and neither changes any other chunk.",
  ["inputs", "histories"], "all chunks of every storage kind, all chains of selections and conversions, all chunk sequences",
  T0 + "Ranges over chains of operations on lazily converted storage.",
  [K, A], [("selection", K + ":chunk.take"), ("sequence selection", K + ":chunk.take_over"), ("lazy conversion", K + ":chunk.prepare"), ("casts", K + ":chunk.as_temporal")], ["rxls.chunk.chunk"])
p("C32", "The environment of the process does not change a table",
  "Reading the same file with the same arguments gives the same table - or fails - in every process, whatever its time zone, locale, hash seed, optimisation level, working directory or thread count, and whether the path is relative or absolute.",
  ["configurations", "inputs"], "all files and arguments times all environments",
  T0 + "Set order, local time and locale only show when the environment varies.",
  [X, B, C, A], [("style sets", X + ":XlsxWorkbook.styles"), ("date conversion", A + ":f8_to_ms_win"), ("read", C + ":read")], ["rxls.reader.read"])
p("C33", "Cells keep value and order between bytes, NumPy, Arrow and bit masks",
  "Converting between sequences of packed little-endian values, texts of numbers, NumPy arrays, Arrow arrays and bit masks - whole, or sliced or strided where the helper takes such input - keeps every value, its order and the length, and does not change the input. The wrapped Arrow functions return what PyArrow's own functions return. dt_has_t tells whether any timestamp is off midnight, dt_has_d whether any is outside 1970-01-01, and f8_is_i8 whether rounding every number to the given number of digits gives the same integer as cutting its fraction off.",
  ["inputs"], "all sequences of values of every storage type, all slices and masks",
  T0 + "No test converts an array.",
  [A, "rxls/chunk/arrow.py"], [("buffer conversions", A + ":_unsafe_data_to_array"), ("bit masks", A + ":_unsafe_bool_arrow_to_numpy"), ("date facts", A + ":dt_has_d"), ("wrapped functions", "rxls/chunk/arrow.py:arrow_fn")], ["rxls.chunk.casts", "rxls.chunk.arrow"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
