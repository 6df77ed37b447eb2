"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
PK, DU, RT, DB, XL = ('channelpack/pack.py', 'channelpack/datautils.py', 'channelpack/readtext.py',
                      'channelpack/dbf.py', 'channelpack/readxl.py')
X = 'channelpack/xlrd/'

p('C01', 'Parts always describe the current mask',
  'Whatever sequence of mask, data and mindur assignments and startstop, duration, mask_reset and append_pack calls a pack has been through, parts() enumerates and pack(ch, part=k) selects the True sections of the mask as it is at that moment, never those of an earlier mask.',
  ['histories', 'inputs'], 'every mask-changing public operation, in every pack configuration (with and without mindur), followed by a parts() or part= query',
  'the tests follow a few fixed operation sequences on one small pack; a stale part table shows only after the one operation that forgets to refresh it',
  [PK], [('every write of the mask content is followed by a rebuild of the table of True sections', 'ChannelPack.__setattr__, ChannelPack.duration')],
  [('mask', 'which rows are selected', PK), ('table of True sections', 'cached slices of the mask', PK)],
  ['ChannelPack.parts', 'ChannelPack.__call__'])
p('C02', 'A set mindur is enforced on every mask update',
  'While mindur is set to n, every operation that updates the mask (assigning mask or data, startstop, mask_reset, append_pack, and setting mindur itself) ends with every True section shorter than n made False and every section of n or more elements kept.  With mindur None no section is falsified by those operations.',
  ['histories', 'inputs'], 'all mask updating operations, all n, all masks',
  'four tests use n of 2 and 3 on four-element masks', [PK],
  [('duration filter applied inside the mask and mindur assignment', 'ChannelPack.__setattr__')], [('mindur', 'persistent minimum section length', PK)], ['ChannelPack.mask'])
p('C03', 'startstop is a latch where stop dominates start',
  'For any startb and stopb, element i of the startstop result is True exactly when stopb[i] is false and either startb[i] is true or the result was latched on by an earlier start with no stop since; the result has the length of the shorter input and is boolean.  The result is anded into the mask when apply is true, leaves the mask alone when it is false, and is returned in both cases.',
  ['inputs', 'histories'], 'all pairs of trigger sequences, of any truth-testable element type',
  'tests sample a handful of trigger patterns; the latch is a two state machine over arbitrary inputs', [PK, DU],
  [('two state transducer yielding one value per pair', 'startstop_bool'), ('mask &= result only under apply', 'ChannelPack.startstop')], (), ['ChannelPack.startstop'])
p('C04', 'True sections are exactly the maximal runs of True',
  'For any boolean sequence the produced slices are exactly its maximal runs of true elements, in order: each slice starts at the first and stops one past the last element of a run, a run reaching the end is included, and an empty or all-false sequence gives no slices.',
  ['inputs'], 'all boolean sequences of any length', 'tests sample a few short sequences', [DU],
  [('run detector with open-run flag and an end-of-input case', 'slicelist')], (), ['slicelist', 'ChannelPack.parts'])
p('C05', 'Data selection follows the part > nof argument > nof attribute order',
  'pack(ch, part, nof) returns the given True section when part is given, whatever nof is; otherwise the nof argument ("nan", "filter", "ignore") decides and only when it is absent the nof attribute.  "nan" gives a full length array with missing values where the mask is False, "filter" only the elements where it is True, and "ignore" or no setting the stored array itself; a part that does not exist raises IndexError.',
  ['inputs', 'configurations'], 'every combination of part, nof argument and nof attribute', 'tests cover some cells of the table, on one data type', [PK, DU],
  [('ordered case analysis', 'ChannelPack.__call__')], [('nof', 'default selection mode', PK)], ['ChannelPack.__call__'])
p('C06', 'Masked-out elements become nan or None by data kind, others unchanged',
  'When unselected elements are replaced, the result has the length of the data and each selected element is the stored one; each unselected element is nan if the data are signed, unsigned, floating or complex numbers and None for every other data kind.  The stored array is not modified.',
  ['inputs'], 'all numpy dtype kinds, all masks', 'tests use int, float and str columns only', [DU, PK],
  [('where(mask, data, fill) with the fill chosen by dtype kind', 'masked')], (), ['masked', "ChannelPack.__call__(nof='nan')"])
p('C07', 'Channels resolve by key, then name, then fallback string, else KeyError',
  'A channel reference (an int or a str) that is a data key means that key; else, if it is not an integer, the key it is the name of; else, if it is exactly the fallback prefix followed by a number that is a data key, that key; anything else raises KeyError, and so does a name whose key has no data.  name(ch) reports the name (or the fallback string) of the key that pack(ch) would use.',
  ['inputs', 'configurations'], 'every reference, every data/names alignment, every prefix', 'tests try a few good and bad references', [PK],
  [('ordered lookup', 'ChannelPack._datakey')], [('names', 'column names by key', PK)], ['ChannelPack.__call__', 'ChannelPack.name'])
p('C08', 'Records line up names, columns and rows',
  'records() yields one record per selected row with one field per named column (per data column with fallback) in ascending key order; the value of each field is that column\'s element of that row under the same part and nof selection as a pack call.',
  ['inputs', 'configurations'], 'all names/data dicts, all part/nof/fallback combinations', 'tests use one pack whose dict order equals key order', [PK],
  [('field names and columns built from one sorted key sequence', 'ChannelPack.records')], (), ['ChannelPack.records'])
p('C09', 'Data and names dicts never hold a non-integer key or a non-1d value',
  'Through every mutation path (construction, item assignment, update with mappings, pairs or keywords, setdefault, in-place or) the data dict holds only integer keys with one-dimensional numpy arrays and the names dict only integer keys.  A rejected mutation raises and leaves the dict unchanged, and an array given by the caller is stored without a copy.',
  ['inputs', 'histories'], 'all mutation paths and argument shapes', 'tests reject a few bad values through some of the paths', [PK],
  [('check before the underlying dict is written, on every path', 'IntKeyDict, NpDict')], (), ['ChannelPack.data', 'ChannelPack.names'])
p('C10', 'Pack attributes only take valid values and cannot be deleted',
  'Assigning an invalid value to nof, FALLBACK_PREFIX, mask, mindur or fn raises and leaves the attribute as it was; valid values are stored; data and names are converted to the checked dict types.  Assigning fn also sets the first of filenames and never changes the others; deleting FALLBACK_PREFIX, data, fn, filenames, names, nof or mindur raises AttributeError.',
  ['inputs', 'histories'], 'all attribute names and values', 'tests assign a few invalid values', [PK],
  [('attribute interposition', 'ChannelPack.__setattr__, ChannelPack.__delattr__')], (), ['attributes of ChannelPack'])
p('C11', 'append_pack is all-or-nothing and never changes the other pack',
  'append_pack(other) either raises ValueError because non-empty data or names do not have the same keys, leaving this pack exactly as it was, or appends other\'s rows after this pack\'s rows in every channel, extends filenames with other\'s and resets the mask to all True.  In both cases, and in later operations on this pack, other\'s dicts and arrays are not modified.',
  ['inputs', 'histories', 'fault_sequences'], 'all combinations of empty, aligned and misaligned data and names dicts', 'tests check success and the exception, not the state after a failure nor aliasing', [PK],
  [('alignment checked before any write; results are new arrays', 'ChannelPack.append_pack')], (), ['ChannelPack.append_pack'])
p('C12', 'Masking and querying never modify stored data',
  'No call, records, name, parts, repr, startstop, duration, mask_reset, mask or mindur operation writes to a stored data array, to the data or names dict, or to an array given by the caller, also when the array assigned to mask is itself a data channel.',
  ['inputs', 'histories'], 'all non-appending public operations, including masks that alias data', 'tests compare results, not whether inputs were written', [PK, DU],
  [('the pack works on a mask array of its own; selection builds new arrays', 'ChannelPack.__setattr__')], (), ['ChannelPack.data'])
p('C13', 'mask_reset selects every row; duration keeps sections by length',
  'mask_reset (also run by construction, data assignment and append_pack) makes the mask a boolean array, all True whatever the data values, of the length of the column with the lowest key, empty without data.  duration(d, samplerate, mindur) falsifies exactly the True sections shorter than int(d*samplerate) elements, or exactly those longer when mindur is false, leaves all others, and returns the mask.',
  ['inputs'], 'all data (nan included), all masks, durations and rates', 'tests use a small pack without missing values', [PK],
  [('length based all-True mask', 'ChannelPack.mask_reset'), ('loop over True sections', 'ChannelPack.duration')], (), ['ChannelPack.mask'])
p('C14', 'Readers close exactly the files they opened and rewind what they sniff',
  'A text or dbf file opened by name by a reader is closed when the reader returns or raises, on every path; a stream given by the caller is never closed.  Sniffing whether a stream is bytes leaves its position where it was, and lazy or name-selecting readers start reading data from the position the stream had when it was given.',
  ['inputs', 'fault_sequences'], 'every exit, normal or exceptional, of every reader, for names and for streams', 'tests do not check open descriptors and inject no failures', [RT, DB],
  [('context manager with an owned flag', 'contextopen'), ('with statements around all reads', 'textpack, lazy_textpack, dbfpack')], (), ['contextopen', 'textpack', 'lazy_textpack', 'dbfpack'])
p('C15', 'Text columns keep their column number, names and data together',
  'In a pack read from text, the data under key k are the values of the k-th field of each data line and the name under key k is the k-th field of the names line or the given name, for any usecols (also unsorted), names and hasnames setting; names given override usecols and hasnames.  debug=True gives the same pack, and keyword arguments given to the lazy reader override derived ones.',
  ['inputs', 'configurations'], 'all combinations of usecols, names, hasnames, debug and converters', 'tests use ascending usecols and compare few configurations', [RT],
  [('selection filter and key sequence derived from the same ascending usecols', 'textpack, linetuples')], (), ['textpack', 'lazy_textpack'])
p('C16', 'Text fields are converted per column as decided by the first data line',
  'Each field is converted by the caller\'s converter for its column if given, else as a number if the first data line\'s field was one (empty meaning nan; decimal comma for all numeric columns if any needs it), else kept as text, stripped only with stripstrings and decoded only for byte streams with an encoding.  The same per-column function is applied on the first and on every later line; blank lines are skipped.  A later field that is no number in a column of numbers is an error the caller gets, with debug too, and a file opened by name is decoded with the given encoding.',
  ['inputs', 'configurations'], 'all files, byte and text streams, all option combinations', 'tests sample files', [RT],
  [('function table built from the first line', 'linetuples')], (), ['linetuples', 'textpack'])
p('C17', 'Both dbf record readers decode every field type alike',
  'For every dbf field type the full reader and the name-selecting reader give the same value: numbers as int or float by decimal count and nan when empty, float fields as float and nan when blank, dates as date and None when blank, logicals as T, F or ?, everything else as decoded text.',
  ['inputs'], 'all field types and field contents', 'tests compare a few sample files, which do not contain every type and missing value', [DB],
  [('two copies of the type dispatch', 'dbfreader, dbfrecords')], (), ['dbfpack'])
p('C18', 'Each dbf record is read at its own place; deleted records are skipped',
  'Every record not flagged as deleted gives exactly one row, in file order, and deleted records give none; each record is read from header end plus its number times the record size, whichever fields are selected and whichever records before it were deleted.  With names given, key k of the pack is the k-th field of the file for both data and names.',
  ['inputs', 'histories'], 'all patterns of deleted records and all selections of fields', 'the test files have few deletions and selections', [DB],
  [('stepping by the full record size on every iteration path', 'dbfreader, dbfrecords')], (), ['dbfpack'])
p('C19', 'Spreadsheet cells convert by cell type with one missing value per column kind',
  'A column of only numbers and missing cells gives floats with nan for missing; of only text and missing cells, strings with "" for missing; any other column gives per cell a datetime for dates (in the workbook\'s own date system), a bool for booleans, None for missing and the raw value otherwise.  Empty, blank and error cells all count as missing.  Only the cells of the data range count, none above or below it.',
  ['inputs'], 'all multisets of cell types in a column, both date systems', 'tests read a few sample workbooks', [XL],
  [('type set classification', 'sheet_columns')], (), ['sheetpack'])
p('C20', 'Spreadsheet columns, header and data range stay aligned',
  'In a pack read from a sheet, key k holds sheet column k of the selected rows, start row to stop row inclusive, the top row excluded exactly when header is True, and its name is the header row\'s cell of the same column; columns are taken in ascending order.  Columns outside the start-stop range and addresses that are none (row 0, no letters) raise ValueError, and without a stop cell the range ends at the last row and column.',
  ['inputs', 'configurations'], 'all header, startcell, stopcell and usecols combinations', 'tests sample combinations', [XL],
  [('one sorted usecols sequence drives names, data and keys', 'sheetpack')], (), ['sheetpack'])
p('C21', 'Reading has no effect outside the process',
  'No code path of the package opens a file for writing, deletes, renames or creates files, runs other programs, evaluates text from a file as code, or uses the network; input files are opened or mapped read-only.',
  ['inputs', 'programs'], 'every function of the package', 'absence of an effect on any input cannot be shown by sampling', ['channelpack/', X],
  [('only read-mode opens and ACCESS_READ mappings', 'contextopen, xlrd.open_workbook, Book.biff2_8_load')], (), ['all public functions'])
p('C22', 'Packs and workbooks share no mutable state',
  'Two packs or two workbooks alive in one process never influence each other: no function changes module level or class level containers or default arguments after import, and every mutable container an instance changes belongs to that instance.',
  ['histories', 'programs'], 'all interleavings of operations on several instances', 'tests use one instance at a time', ['channelpack/', X],
  [('containers created per instance', 'constructors')], (), ['all public classes'])
p('C23', 'Opening a workbook leaves no file open',
  'When open_workbook returns a fully loaded book or raises, the files, memory maps and zip archives it opened are closed; with on_demand they stay open until release_resources, which also the end of a with block calls.',
  ['fault_sequences', 'inputs'], 'every exit of the open path, normal or exceptional, for xls and xlsx', 'tests do not check descriptors nor failures in the middle of loading', [X + '__init__.py', X + 'book.py'],
  [('release in the exceptional and in the normal exit', 'open_workbook, open_workbook_xls, Book.release_resources, Book.__exit__')], (), ['xlrd.open_workbook'])
p('C24', 'Corrupt sector chains end in an error, not an endless loop',
  'Following any chain of sectors in a compound document terminates for every file content: each chain-following loop detects a revisited sector or a chain longer than the file can hold and raises instead of going round.',
  ['inputs'], 'all sector allocation table contents', 'test files are well formed', [X + 'compdoc.py'],
  [('visited marks and length bounds', 'CompDoc')], (), ['xlrd.open_workbook'])
p('C25', 'Fixed width binary fields are unpacked with their exact width',
  'Wherever the package unpacks a constant binary layout from a constant width piece of a record, the layout takes exactly that many bytes, is little-endian where values have several bytes, and gives as many values as are taken from it.',
  ['inputs'], 'all records of all files', 'a layout for a record type absent from the test files is never run', [X],
  [('struct formats and slice bounds written side by side', 'all unpack sites')], (), ['xlrd.open_workbook', 'dbfpack'])
p('C26', 'Sheet cell stores stay in step and accessors agree',
  'For every cell stored in a sheet its type, value and format index are stored in parallel rows of equal length, whatever the order in which cells arrive.  Row and column accessors for cells, types and values take the same cells for the same bounds, negative bounds and missing ends included.',
  ['inputs', 'histories'], 'all cell orders, all bounds', 'tests read well formed sheets row by row and call the accessors with a few bounds', [X + 'sheet.py'],
  [('same update of each parallel list in each branch', 'Sheet.put_cell, Sheet.tidy_dimensions'), ('sibling slice accessors', 'Sheet.row_*, Sheet.col_*')], (), ['Sheet'])
p('C27', 'Every xlsx cell becomes its declared type or an error',
  'Each xlsx cell is stored once, at the row and column of its reference (or next to the previous one if it has none), with the cell type and value its type attribute declares: number (a date exactly when its cell format is a date format), shared or inline text, boolean, error code, formula text.  Shared texts keep the order of the table, without phonetic readings.  An unknown cell type, boolean or child element raises, and the 1904 flag sets the date system of the workbook.',
  ['inputs'], 'all cell type attributes and child elements, all orders of rows and cells', 'the sample files have few of the types', [X + 'xlsx.py'],
  [('type attribute dispatch', 'X12Sheet.do_row')], (), ['xlrd.open_workbook'])
p('C28', 'Excel dates use the epoch of their date system and reject invalid serials',
  'Conversion to datetime counts from 1904-01-01 in the 1904 system, from 1899-12-31 for serials below 60 and from 1899-12-30 for the others in the 1900 system.  Conversion to a tuple raises the documented error for a bad date system, negative, too large or ambiguous serials and never returns a date for them.',
  ['inputs'], 'all serial numbers in both systems', 'tests sample serials', [X + 'xldate.py'],
  [('epoch case analysis and ordered guards', 'xldate_as_datetime, xldate_as_tuple')], (), ['xlrd.xldate_as_datetime', 'xlrd.xldate_as_tuple'])
p('C29', 'The lazy text parser derives the right delimiter, header size and names',
  'For every numeric text file within the parsed lines, the derived delimiter, number of header lines, decimal separator and field names are those a human reader of the file would take.',
  ['inputs'], 'all text files', 'tests sample real files', [RT], [('regular expression heuristics', 'preparse')], (), ['lazy_textpack'])
p('C30', 'Column letters and calendar arithmetic are numerically exact',
  'Spreadsheet column letters map to column numbers as a bijective base-26 numeration, and serial date arithmetic gives the exact Gregorian date for every valid serial.',
  ['inputs'], 'all letters and serials', 'tests sample values', [XL, X + 'xldate.py'], [('integer arithmetic', 'letter2num, xldate_as_tuple')], (), ['letter2num', 'xldate_as_tuple'])
p('C31', 'Cells of binary workbooks have the place, type and value of their record',
  'Every cell record of an xls sheet, of any BIFF version, puts exactly the cells it stands for into the sheet: at its row and column (one after the other for multiple cell records), with its own format index, with the type and value its bytes hold: floating point and RK numbers, booleans, errors, text decoded as its flags or version call for, also when continued in further records, and for formulas the stored result, text results from the string record that follows with any shared formula, array or table record in between.  Blank cells are put only with formatting information, records that are no cells put none, and malformed formula results raise XLRDError.',
  ['inputs'], 'all records of all xls files', 'tests compare a handful of files', [X + 'sheet.py', X + 'biffh.py', X + 'book.py'],
  [('record reader', 'Sheet.read, Sheet.string_record_contents, unpack_RK'), ('string helpers', 'biffh.unpack_string, unpack_unicode'), ('record stream', 'Book.get_record_parts')], (), ['xlrd.open_workbook'])
p('C32', 'Packed format and layout fields come from their own bits',
  'In cell format (XF), row, column, view and object records of every BIFF version each attribute is taken from the bits the record layout gives it, unsigned and shifted down to bit 0; no two attributes of a record share bits, and an attribute that a version lacks has its documented default.',
  ['inputs'], 'all bit patterns of all format records', 'test files use few formats', [X + 'formatting.py', X + 'sheet.py', X + 'biffh.py'],
  [('XF record layouts', 'formatting.handle_xf'), ('row, column, window records', 'Sheet.read'), ('bit field helpers', 'biffh.upkbits')], (), ['xlrd.open_workbook(formatting_info=True)'])
p('C33', 'Shared strings are read whole and in order across record boundaries',
  'The shared string table of an xls workbook gives one text per entry, in file order, with exactly the characters of the entry, wherever continuation records split the table and whether each part is stored with one or two bytes per character; rich text runs belong to their own string and phonetic data are skipped.',
  ['inputs'], 'all splits of all tables', 'the splits in the test files are accidental', [X + 'book.py'],
  [('string table parser', 'unpack_SST_table'), ('record collection', 'Book.handle_sst')], (), ['xlrd.open_workbook'])
p('C34', 'Sheets of an xls workbook keep their order, names and contents',
  'Opening an xls workbook gives exactly its worksheets, in the order of their records, other kinds of sheet left out; each sheet has the name, number, visibility and cells of its own record and substream, however the substreams are laid out, whichever accessor is used (index, name, iteration, subscript) and whether sheets are loaded at once, on demand, or again after being unloaded; names that are not there raise XLRDError, as does loading after the resources are released.  Date mode, version and encoding are those of their own records, and data that are no workbook raise XLRDError.',
  ['inputs', 'histories'], 'all workbooks and sequences of sheet accesses', 'test files have their sheets in file order and are loaded whole', [X + 'book.py'],
  [('sheet records', 'Book.handle_boundsheet'), ('sheet loader', 'Book.get_sheet'), ('record loop', 'Book.parse_globals'), ('version', 'Book.getbof')], (), ['xlrd.open_workbook', 'Book.sheet_by_name'])
p('C35', 'A pack tells which file it was read from',
  'A pack made by any reader has as fn the file name given or the name of the stream given, the empty string where the stream has no name that is text (none, a descriptor number, bytes), and as filenames the list of just that; the name of a stream never keeps it from being read.',
  ['inputs', 'configurations'], 'every reader, every kind of source and option', 'tests look at fn of a few readers', [RT, DB, XL],
  [('assignment of fn on every exit', 'textpack, lazy_textpack, dbfpack, sheetpack'), ('name of the source', 'contextopen')], (), ['textpack', 'lazy_textpack', 'dbfpack', 'sheetpack'])
p('C36', 'Streams of a compound document are read byte for byte',
  'The stream found under a name in a compound document is exactly the bytes of the sectors of its chain, in chain order, cut at its size: for sectors of any size in any order, for allocation tables spread over several sectors or listed in extension sectors, and for short streams kept in the container of the root entry.  Names are found anywhere in the directory tree whatever their case, names that are not there give None, and reading one stream does not change another.',
  ['inputs'], 'all sector layouts, sizes and directory trees', 'test files are written by few programs, mostly in one piece', [X + 'compdoc.py'],
  [('sector chains', 'CompDoc._get_stream, CompDoc._locate_stream'), ('tables', 'CompDoc.__init__'), ('directory', '_build_family_tree, CompDoc._dir_search')], (), ['xlrd.open_workbook', 'CompDoc.get_named_stream'])
p('C37', 'Sheets of an xlsx package keep their parts, order, names and annotations',
  'Opening an xlsx package gives exactly its worksheets, in the order the workbook part lists them and with the name (escapes decoded), visibility and cells of the part their own relationship targets, however relationships, sheet ids and part names are numbered and ordered, whether targets are relative or absolute and whatever their case; other kinds of sheet are left out.  Merged ranges and comments, with author, place and text, belong to the sheet whose part or relationships declare them; defined names are found by name in any case and by scope; the last author is the user name.',
  ['inputs'], 'all packages', 'test files are written by few programs, with parts numbered in sheet order', [X + 'xlsx.py'],
  [('sheet list', 'X12Book.do_sheet, X12Book.process_rels'), ('sheet annotations', 'X12Sheet.process_rels, process_comments_stream, do_merge_cell'), ('names', 'do_defined_name, make_name_access_maps')], (), ['xlrd.open_workbook'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
