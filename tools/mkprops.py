#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Streams in a well-formed OLE2 container are recovered byte for byte",
  "For every well-formed OLE2 compound file - any legal sector and mini-sector size, any physical order of sectors, any directory size and sibling/child tree shape, with or without extended master-table sectors, stored as a regular or as a mini stream - the bytes handed to the workbook reader are exactly the bytes stored under the requested stream name. "
  "The result does not depend on unrelated streams, on the case of the stream name, on unused sectors, or on slack bytes after the end of the stream.",
  ["inputs"], "all legal container layouts (allocation, directory and mini-stream shapes) and stream contents",
  "The suite opens a few dozen files written by Excel, whose sectors are almost always contiguous; permuted chains, multi-sector tables, mini streams and odd directory trees are a combinatorial space.",
  ["xlrd/compdoc.py", "xlrd/book.py"],
  [("master/sector/short-sector table loading and chain walking", "xlrd/compdoc.py CompDoc.__init__, _get_stream, _locate_stream"),
   ("directory lookup", "xlrd/compdoc.py _dir_search, _build_family_tree")],
  ["CompDoc.get_named_stream / locate_named_stream", "open_workbook(file_contents=...)"])

p("C02", "A damaged OLE2 container ends in an error, not in a hang or invented data",
  "Reading a container whose header is invalid, or whose allocation chains are cyclic, leave the file, stop before the declared stream size, run past it, or are shared with another structure, always terminates and reports an error instead of returning data. "
  "When the caller asks for workbook corruption to be ignored, sector sharing between the workbook stream and other structures is tolerated and the bytes along the chain are returned; every other kind of damage is still reported.",
  ["inputs", "fault_sequences"], "all single and multiple faults in header fields, allocation tables, directory entries and chains of a container",
  "Tests hold one or two corrupt sample files; fault positions and their combinations are unbounded.",
  ["xlrd/compdoc.py", "xlrd/book.py"],
  [("per-sector 'seen' marking, bounds and end-of-chain checks", "xlrd/compdoc.py CompDoc._locate_stream, _get_stream, __init__")],
  ["CompDoc(...) and its stream accessors: bytes or exception, within a time limit"],
  [("seen", "which structure already claimed each sector", "xlrd/compdoc.py")])

p("C03", "The sheet grid is exactly the cell records of the sheet",
  "For every sequence of cell records, in any order and with repetitions, each cell of the opened sheet holds the value and type of the last record that addressed it, every other cell inside the sheet's extent is empty, and the extent is the smallest one covering the records (and, when formatting is loaded, blank cells and merged ranges). "
  "With ragged rows, each row is exactly as long as its right-most recorded cell and agrees with the padded grid wherever both are defined.",
  ["inputs", "configurations"], "all sequences of cell, blank, dimension, row and merged-range records, both row-padding modes, both formatting modes",
  "Samples are written by Excel in row-major order with consistent dimensions; out-of-order, overlapping and repeated records exercise growth paths the samples never reach.",
  ["xlrd/sheet.py"],
  [("cell storage and growth", "xlrd/sheet.py put_cell_ragged, put_cell_unragged, extend_cells, tidy_dimensions")],
  ["Sheet.nrows/ncols/row_len/cell_value/cell_type/row_values"],
  [("_cell_values/_cell_types", "ragged or padded matrix", "xlrd/sheet.py")])

p("C04", "Every cell record form decodes to exactly the stored value and type",
  "A numeric, integer, packed-number, boolean, error, text or blank cell record, alone or in a multi-cell record, is reported at its own row and column with the exact stored value (bit-exact for numbers) and the matching type. "
  "This holds for every record layout of every supported file version, including cells in the last rows and columns the format can address.",
  ["inputs"], "all record payloads (all packed-number encodings, all doubles, booleans, error codes, positions) in all supported file versions",
  "Test samples contain a handful of numeric values and almost only version-8 records.",
  ["xlrd/sheet.py", "xlrd/biffh.py"],
  [("record dispatch and unpacking", "xlrd/sheet.py Sheet.read, unpack_RK, unpack_cell_range_address_list_update_pos")],
  ["Sheet.cell_value / cell_type"])

p("C05", "Numeric cells are dates exactly when their number format is a date format",
  "A numeric cell is reported as a date if and only if the number format of its style record is one of the built-in date/time formats or a custom format whose live codes (outside quoted text, escapes, fills, colours, conditions and locale brackets) are predominantly date/time codes; otherwise it is a plain number. "
  "The classification depends only on the cell's own style record and the format it names, never on other cells, styles, formats or the order in which they appear.",
  ["inputs", "histories"], "all format strings and format keys, all assignments of formats to styles and styles to cells, all record types that store numbers",
  "Tests check about a dozen format strings; format strings are unbounded and the per-book caches make order matter.",
  ["xlrd/formatting.py", "xlrd/sheet.py"],
  [("format string scanner", "xlrd/formatting.py is_date_format_string"), ("style-to-type map", "xlrd/formatting.py handle_xf, xf_epilogue; xlrd/sheet.py")],
  ["Sheet.cell_type for number, packed-number, multi-cell and formula records", "book.format_map"])

p("C06", "Shared strings are recovered whatever way the table is split into records",
  "For every shared string table - any mix of compressed and wide text, rich-text runs, phonetic data and empty strings - and every legal split of it into continuation records, each string cell shows exactly the stored text, and with formatting loaded its rich-text runs. "
  "How the table is split never changes the result.",
  ["inputs"], "all string tables and all legal continuation split points, including between any two characters",
  "Excel splits only near 8 KB boundaries, so samples contain at most a few split points.",
  ["xlrd/book.py", "xlrd/sheet.py"],
  [("string table decoder across continuation records", "xlrd/book.py unpack_SST_table, handle_sst")],
  ["Sheet.cell_value of string cells, Sheet.rich_text_runlist_map"])

p("C07", "Byte strings are decoded with the encoding that applies to the workbook",
  "Text stored as bytes is decoded with the caller's override if given, otherwise with the encoding derived from the workbook's code page record, otherwise with the documented default, and wide text is decoded as UTF-16 regardless; this holds for sheet names, cell text, format strings, font names, the user name and defined names alike. "
  "The outcome does not depend on whether the code page record precedes or follows the text that needs it within the workbook header, where that is legal.",
  ["inputs", "configurations"], "all code page values, override options, file versions and text",
  "Tests use default-encoded version-8 files.",
  ["xlrd/book.py", "xlrd/biffh.py", "xlrd/sheet.py", "xlrd/formatting.py"],
  [("encoding derivation", "xlrd/book.py derive_encoding, handle_codepage, handle_writeaccess"), ("string unpackers", "xlrd/biffh.py unpack_string, unpack_unicode, *_update_pos")],
  ["Book.codepage, Book.encoding, Book.user_name, sheet_names(), cell values, format strings, font names"])

p("C08", "On-demand loading, unloading and releasing behave as a simple state machine",
  "Under every interleaving of loading sheets by index or name, iterating, unloading, releasing resources and leaving a context manager, a loaded sheet always equals what an eager open returns, a sheet reports loaded exactly when it is, reloading after unloading gives equal contents, and repeated release is harmless. "
  "After resources are released, sheets already loaded stay usable while loading another raises the documented error; bad names and indexes raise without changing anything.",
  ["histories"], "all sequences of public life-cycle calls on one workbook and on several workbooks open at once",
  "Tests perform two or three fixed call sequences.",
  ["xlrd/book.py", "xlrd/__init__.py"],
  [("sheet cache and resource release", "xlrd/book.py Book.sheet_by_index, sheet_by_name, sheets, unload_sheet, release_resources, __enter__/__exit__"),
   ("eager release after open", "xlrd/__init__.py open_workbook, xlrd/book.py open_workbook_xls")],
  ["Book public methods: results, exceptions, sheet_loaded, sheet contents"],
  [("_sheet_list", "None or the loaded sheet", "xlrd/book.py"), ("_resources_released", "release flag", "xlrd/book.py")])

p("C09", "Formula cells show their stored result",
  "A formula cell holds the result stored in the file: number (typed number or date by its format), text, boolean, error or empty text, for every legal arrangement of the text result - immediately following, after a shared/array/table formula record, and split over continuation records - in every supported file version. "
  "A following cell is never confused with the text result of a formula.",
  ["inputs"], "all formula result kinds, text results, and record arrangements around formula cells",
  "Tests contain one file with calculated cells.",
  ["xlrd/sheet.py"],
  [("formula result decoding", "xlrd/sheet.py Sheet.read FORMULA branch, string_record_contents")],
  ["Sheet.cell_value / cell_type"])

p("C10", "Date serial conversion is exact, total on its domain and invertible",
  "For both epoch conventions, converting a serial number to date parts gives the calendar date and the time of day rounded to the nearest second, rejects negative, ambiguous (1900 system, before 1 March 1900), too-large and bad-epoch inputs with the documented error, and converting date parts to a serial number is its exact inverse. "
  "Tuple-based and datetime-based conversions agree wherever both are defined.",
  ["inputs"], "all serial numbers (every day of the supported range, every second of a day, range boundaries) and all date tuples, valid and invalid",
  "Tests sample about twenty dates out of 2.9 million days times 86,400 seconds.",
  ["xlrd/xldate.py"],
  [("Julian day arithmetic and validation", "xlrd/xldate.py xldate_as_tuple, xldate_as_datetime, xldate_from_date_tuple, xldate_from_time_tuple, xldate_from_datetime_tuple")],
  ["xlrd.xldate functions: values and exception classes"])

p("C11", "All ways of reading rows, columns and cells agree",
  "For every sheet and every index or slice argument, the row, column, slice, cell, value, type and format-index accessors and row iteration all describe the same grid, with Python slice semantics for negative, missing and overlong bounds, and clipping to the row's real length when rows are ragged. "
  "Reading never changes the sheet.",
  ["inputs", "histories"], "all grid shapes, ragged or not, and all start/end arguments",
  "Tests read a few fixed cells and slices.",
  ["xlrd/sheet.py"],
  [("accessors", "xlrd/sheet.py Sheet.cell/row/col/row_slice/row_types/row_values/col_slice/col_values/col_types/get_rows/row_len")],
  ["Sheet accessors"])

p("C12", "Defined names are catalogued and found by the right scope",
  "Every defined name of a workbook appears once in file order with its text, flags, built-in name expansion, scope and raw formula; the lookup by lower-cased name lists all its scopes in order, the lookup by name and scope finds exactly that one, and scope numbers refer to the sheet as the user sees it. "
  "Asking a name for its single cell or its rectangular area returns the cell or the clipped area it denotes on the right sheet, or raises when it denotes neither.",
  ["inputs"], "all lists of names (scopes, duplicates, built-ins, hidden/macro flags) and sheet lists",
  "Tests check a few names of one file.",
  ["xlrd/book.py"],
  [("name records and maps", "xlrd/book.py handle_name, names_epilogue, Name.cell, Name.area2d")],
  ["Book.name_obj_list, name_map, name_and_scope_map, Name attributes and methods"])

p("C13", "Name formulas evaluate to the value and text they denote",
  "For every formula of a defined name built from constants, references, operators, other names and the supported list/range/intersection operators, the reported operand kind, value and text are those of the formula: arithmetic, comparison and text operators follow spreadsheet rules for constants, text has exactly the parentheses precedence requires, and reference values denote the right sheets, rows and columns with relative/absolute flags kept. "
  "A formula outside the supported subset is marked as not evaluated without failing the open or disturbing other names.",
  ["inputs", "programs"], "all token sequences of supported operators and operands, nested to any depth, in versions 5 to 8",
  "Tests evaluate about fifteen fixed formulas.",
  ["xlrd/formula.py", "xlrd/book.py"],
  [("stack-machine evaluation", "xlrd/formula.py evaluate_name_formula, do_binop, get_cell_addr, get_externsheet_local_range")],
  ["Name.result (kind, value, text), Name.any_err, Name.any_rel, Name.complex"])

p("C14", "Every cell resolves to the style record the file assigns to it",
  "With formatting loaded, the format index of a cell is the one stored with the cell; where no cell is stored it is the row's default if the row has one, else the column's default, else the workbook default. "
  "This holds for every record form that stores a cell and every file version, and without formatting loaded asking for it raises instead of guessing.",
  ["inputs", "configurations"], "all combinations of cell, row and column formatting records and lookup positions inside and outside the recorded extent",
  "Tests check a few cells of one formatted file.",
  ["xlrd/sheet.py"],
  [("format index resolution", "xlrd/sheet.py Sheet.cell_xf_index, put_cell, ROW/COLINFO/XF handling, fixed_BIFF2_xfindex")],
  ["Sheet.cell_xf_index, Cell.xf_index"])

p("C15", "Style tables carry exactly the stored attributes",
  "With formatting loaded, every font, number format, style record, named style and palette entry of the workbook is listed in file order with exactly the attributes stored in its record - including every bit field of alignment, border, background and protection - and colour indexes resolve through the workbook's own palette. "
  "Inheritance flags and attribute defaults are as documented for each file version.",
  ["inputs"], "all contents of font, format, style, named-style and palette records in each file version",
  "Tests check single attributes of a few styles in version-8 files.",
  ["xlrd/formatting.py"],
  [("record decoding", "xlrd/formatting.py handle_font, handle_format, handle_xf, handle_style, handle_palette, palette_epilogue, xf_epilogue")],
  ["Book.font_list, format_list, format_map, xf_list, style_name_map, colour_map, palette_record"])

p("C16", "Hyperlinks are reported with every stored part and for every covered cell",
  "For every hyperlink record - web address, local or network path, relative file, or place in the document, with or without description, target frame, sub-address and screen tip - the reported link has the stored kind, address parts, texts and half-open cell range, and the lookup by cell finds the last link covering that cell. "
  "Hyperlinks are reported with and without formatting loaded and never disturb cell data.",
  ["inputs"], "all combinations of optional parts, texts and cell ranges of hyperlink records",
  "Tests check six links of one file.",
  ["xlrd/sheet.py"],
  [("link record decoding", "xlrd/sheet.py handle_hlink, handle_quicktip, get_nul_terminated_unicode")],
  ["Sheet.hyperlink_list, Sheet.hyperlink_map"])

p("C17", "Cell notes carry the stored text, author, visibility and rich-text runs",
  "For every arrangement of comment, drawing-object and text-object records, each note is attached to its own cell with its author, visibility flags and the full text and rich-text runs of its own text object, including text split over continuation records, and in older versions text assembled from continuation notes. "
  "Text objects that belong to no note never leak into one.",
  ["inputs"], "all interleavings of notes and objects on a sheet, all texts and splits",
  "Tests check one file with one or two notes.",
  ["xlrd/sheet.py"],
  [("note/object/text assembly", "xlrd/sheet.py handle_note, handle_obj, handle_txo, handle_feat11")],
  ["Sheet.cell_note_map"])

p("C18", "Cell ranges and layout records are reported with consistent half-open bounds",
  "Merged ranges, row/column label ranges, page breaks, row heights and flags, and column formatting are reported exactly as stored, converted to half-open ranges, for every record of the sheet however the records are divided. "
  "Merged ranges, page breaks, row and column information are populated only when formatting is loaded, label ranges always, and all are independent of one another.",
  ["inputs"], "all contents and divisions of range, row, column and page-break records in every file version",
  "Tests check one merged-cell file.",
  ["xlrd/sheet.py", "xlrd/biffh.py"],
  [("range records", "xlrd/sheet.py MERGEDCELLS, LABELRANGES, HORIZONTALPAGEBREAKS/VERTICALPAGEBREAKS, ROW, COLINFO")],
  ["Sheet.merged_cells, row_label_ranges, col_label_ranges, horizontal_page_breaks, vertical_page_breaks, rowinfo_map, colinfo_map"])

p("C19", "Column widths and window settings follow the documented resolution rules",
  "The width of a column is that of its own column record, or the standard width, or the default column width, in the order documented for the file version, and zoom factors, freeze panes, gridline and other window flags, default row height and sheet visibility equal what the file stores, with documented defaults when absent. "
  "The order of the records involved does not change the outcome.",
  ["inputs"], "all subsets, orders and contents of width, window, zoom, pane and protection-independent view records per file version",
  "Tests do not cover these attributes beyond presence.",
  ["xlrd/sheet.py"],
  [("width resolution", "xlrd/sheet.py Sheet.computed_column_width, req_fmt_info, GCW/STANDARDWIDTH/DEFCOLWIDTH/COLINFO"), ("view records", "xlrd/sheet.py WINDOW2, SCL, PANE, DEFAULTROWHEIGHT, WSBOOL")],
  ["Sheet.computed_column_width and view attributes"])

p("C20", "File kind detection and every way of supplying a file agree",
  "The kind of a file is recognised from its content alone - path, bytes, or ZIP member names regardless of case and slash direction - and a file recognised as another spreadsheet kind is refused with an error naming it. "
  "Opening the same bytes by path with or without memory mapping, by user-home path, or as in-memory contents, bare or inside a container, gives the same workbook; of a container that holds a workbook in both the current and the older generation of streams, the current one is read.",
  ["inputs", "configurations"], "all leading bytes, ZIP member lists and ways of supplying the content",
  "Tests open fixed files one way each.",
  ["xlrd/__init__.py", "xlrd/book.py"],
  [("format sniffing and dispatch", "xlrd/__init__.py inspect_format, open_workbook"), ("content loading", "xlrd/book.py Book.biff2_8_load")],
  ["inspect_format, open_workbook"])

p("C21", "Every supported file version is recognised and read alike",
  "A workbook stream is read according to the version its first record declares, for each of the supported versions 2.0 to 8 including the documented 4W workbooks and version-5/7 distinction, and the same logical sheet stored in different versions yields the same cells. "
  "Streams starting with anything else, or with a stream type or version that is not supported, are refused with the library's error.",
  ["inputs", "configurations"], "all leading records (opcode, length, version, stream type, build, year) and all versions of a logical sheet",
  "Samples contain only three versions.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/biffh.py"],
  [("version detection", "xlrd/book.py Book.getbof, fake_globals_get_sheet, parse_globals, get_sheets"), ("4W", "xlrd/book.py handle_sheethdr, handle_sheetsoffset")],
  ["Book.biff_version, Book.nsheets, cells, XLRDError"])

p("C22", "Records the reader does not use never change what it reports",
  "Inserting unknown or irrelevant records anywhere between records, nested chart or other embedded substreams inside a sheet, or data after the end of the sheet's substream leaves every reported cell and attribute unchanged. "
  "Non-worksheet sheets (charts, macro sheets, modules) are skipped without disturbing the numbering of worksheets.",
  ["inputs"], "all insertions of unused records and nested substreams at all record boundaries",
  "Each sample has one fixed record sequence.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("record loop, nested BOF skipping", "xlrd/sheet.py Sheet.read; xlrd/book.py parse_globals")],
  ["every public attribute of Book and Sheet"])

p("C23", "Truncated or failing input raises and leaks nothing",
  "A workbook stream cut anywhere before its required end, or whose reading fails in any way, raises an exception instead of returning a partial workbook, and after any failed or completed open no file handle or memory map opened by the library remains in use. "
  "Opening a file never modifies it.",
  ["crash_points", "inputs"], "all truncation points of workbook streams and all failure points during opening, for each way of supplying the file",
  "Tests contain no truncated files beyond one or two samples.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/__init__.py"],
  [("record fetch", "xlrd/book.py get_record_parts, get2bytes; xlrd/sheet.py Sheet.read"), ("cleanup on error", "xlrd/book.py open_workbook_xls, release_resources")],
  ["open_workbook: exception or book; open descriptors of the process; file bytes"])

p("C24", "Password-protected workbooks are refused, everything else is not",
  "A workbook whose header contains the password-encryption record is always refused with the library's error stating that it is encrypted, wherever that record legally stands and whatever its content, so that no ciphertext is ever returned as data. "
  "Write-reservation or sheet/workbook protection records alone never prevent reading.",
  ["inputs"], "all positions and payloads of encryption and protection records per file version",
  "Tests hold at most one encrypted file.",
  ["xlrd/book.py"],
  [("encryption record handling", "xlrd/book.py handle_filepass")],
  ["open_workbook: XLRDError or book"])

p("C25", "The sheet catalogue matches the workbook header",
  "The number of sheets, their names, order, visibility and lookup by index or name are exactly those of the worksheet entries of the workbook header, for every mix of worksheet, chart, macro and module entries, any visibility, and any physical order of the sheet substreams. "
  "Each catalogue entry leads to its own sheet's data.",
  ["inputs"], "all lists of sheet entries, names, types, visibilities and substream placements",
  "Samples have few sheets, in physical order.",
  ["xlrd/book.py"],
  [("sheet entries", "xlrd/book.py handle_boundsheet, get_sheets, sheet_by_name, sheet_by_index")],
  ["Book.nsheets, sheet_names, sheet_by_index/name, Sheet.visibility"])

p("C26", "Options change only what they document and workbooks are isolated",
  "For any workbook, the values and types of cells (and every other attribute an option does not govern) are the same whatever combination of verbosity, log file, formatting loading, row padding, on-demand and memory-mapping options is used, and whichever other workbooks were opened before or are open at the same time. "
  "For well-formed files nothing is written to standard output when a log file is supplied, and at the default verbosity nothing is written to the log either, apart from notes about a missing code page, an on-demand request that an old version cannot honour, a version 4 workbook of several sheets, and name formulas that use functions the library does not know or refer to one another more than five deep.",
  ["configurations", "histories"], "all option combinations and all orders of opening several different workbooks",
  "Tests open each sample with one option set in one order.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/formatting.py", "xlrd/__init__.py"],
  [("per-book state and option tests", "xlrd/book.py, xlrd/sheet.py, xlrd/formatting.py")],
  ["full projection of Book and Sheet under each option set"])

p("C27", "Record dump and record census list exactly the records of the stream",
  "The diagnostic dump lists every record of the workbook stream once, in order, with its offset, code and length and the bytes of its payload, and the census counts each record kind exactly as often as it occurs, for every stream. "
  "Filler bytes after the last record are reported as such and never as records.",
  ["inputs"], "all record sequences and trailing bytes",
  "Tests check only the hex helper on one string.",
  ["xlrd/biffh.py", "xlrd/__init__.py"],
  [("dump and census", "xlrd/biffh.py biff_dump, biff_count_records, hex_char_dump; xlrd/__init__.py dump, count_records")],
  ["text written by dump / count_records"])

p("C28", "Cell, column and range names are exact and invertible",
  "Column, cell, absolute-cell and range names produced for any position follow spreadsheet notation in both A1 and R1C1 styles, distinct positions get distinct names, and column names enumerate bijective base 26. "
  "Sheet-range prefixes name the right sheets and are quoted exactly when the notation requires it.",
  ["inputs"], "all row/column positions, ranges, relative flags and sheet names",
  "Tests check a handful of names.",
  ["xlrd/formula.py"],
  [("notation helpers", "xlrd/formula.py colname, cellname, cellnameabs, rangename2d, rangename3d, rangename3drel, quotedsheetname, sheetrange")],
  ["xlrd.colname, cellname, cellnameabs, rangename3d, rangename3drel and name texts"])

p("C29", "Workbook-wide settings and the calendar of date cells are the file's",
  "The calendar mode, countries, last author and code page reported for a workbook are those stated by the file's records, wherever the file version keeps them (workbook header, or among the records of a sheet in older versions), in whatever order and however often they are repeated, with the documented defaults when they are absent and with the padding of the author's name removed. "
  "The calendar date obtained from any date cell under the reported mode is the date the writer stored, and workbooks open at the same time never influence each other.",
  ["inputs", "configurations"], "all sets and orders of setting records in every file version, all dates, several workbooks open at once, all ways of loading",
  "The samples hold these records in the order one writer uses; most tests never look at the settings and none opens two workbooks with different settings.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/xldate.py"],
  [("setting records", "xlrd/book.py handle_datemode, handle_country, handle_writeaccess, handle_codepage, parse_globals; xlrd/sheet.py Sheet.read"),
   ("dates of cells", "xlrd/xldate.py xldate_as_tuple, xldate_as_datetime")],
  ["Book.datemode, countries, user_name, codepage", "xldate_as_tuple(cell.value, book.datemode)"])

p("C30", "The command-line reporter lists exactly what the files hold",
  "For every command line, the reporter names each file once in order, says so when a file cannot be opened and goes on with the next one, and its header, sheet, row, name, label, font and count listings state what the library reads: the rows the command promises (all, or the first, second and last), each cell once with its position, type, value, calendar date or error text, and style index when formatting is loaded. "
  "This holds whatever the combination of options for formatting, loading on demand, ragged rows, a single sheet, memory mapping, log file and timing, and for sheets of every size up to the limits of the format.",
  ["inputs", "configurations"], "all command lines (command, options, mix of readable, unreadable and missing files) over all workbooks",
  "No test runs the script at all.",
  ["scripts/runxlrd.py", "xlrd/biffh.py"],
  [("listing loops", "scripts/runxlrd.py show, show_row, get_row_data, count_xfs, show_labels, show_names, show_fonts, bk_header"),
   ("file loop and failures", "scripts/runxlrd.py main"), ("object dump", "xlrd/biffh.py BaseObject.dump")],
  ["text printed by runxlrd.py and its exit status"])

p("C31", "Rich-text formatting belongs to the text the cell shows",
  "With formatting loaded, the rich-text runs reported for a cell are exactly those stored with the text the cell shows - in the string table or with the cell, in every file version that has them - and there is no entry for any other cell: plain texts, texts without runs, other kinds of cells, or cells whose rich text was replaced by a later record. "
  "Without formatting loaded no runs are reported. Sheets never share or disturb each other's runs, however they are loaded.",
  ["inputs", "histories"], "all sequences of cell records with and without runs, all tables of shared strings, versions 5 to 8, all ways of loading",
  "One sample file with a few rich cells is read once.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("runs of cells", "xlrd/sheet.py Sheet.read LABELSST/RSTRING, put_cell; xlrd/book.py handle_sst, unpack_SST_table")],
  ["Sheet.rich_text_runlist_map"])

ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
