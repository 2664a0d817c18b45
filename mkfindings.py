"""Writes known_findings.json."""
import json
import subprocess

CASE = {
    "spec": {"fmt": "xlsx", "sst": ["a"], "xfs": [0, 22], "dt": {"01.01.2021": 1609459200000},
             "sheets": [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "i", "v": "r"}, {"c": 1, "k": "n", "v": 44197.0, "s": 1}]},
                                               {"cells": [{"c": 0, "k": "i", "v": "r"}, {"c": 1, "k": "i", "v": "2021-02-31"}]}]}]},
    "kw": {"conflict_resolve": "temporal"}, "sheet": 0,
}
FIXED = """
C01 d0661dc a column that starts below its first rows ended early
C02 d0661dc a column that starts below its first rows ended early
C11 5078640 repeated header names were returned without suffixes
C11 b9e31b4 a sheet with nothing below the header failed or kept the header as data
C09 30add50 shared strings were not looked up before being parsed as dates
C09 5a89d97 a failed conversion left parts of the column converted
C25 5a89d97 a failed conversion changed later answers of the column
C25 7d63fab an offset without a length kept only one chunk
C26 dcdfc9c a shared string index out of range read foreign memory
C10 4f08515 midnight, 1970-01-01, earlier dates and two-digit years were lost
C04 7cc8fc5 serials were truncated instead of rounded to milliseconds
C08 3a37d6c floats beyond int64 became wrapped integers
C16 50a42ec types that differ only in unit or time zone were taken as equal
C23 8308bf9 wide strings were written with a BOM and a wrong length
C23 cfa70b9 relationship attributes were written without escaping
C22 24b9f1f timestamps before 1970 became wrong serials
C21 0cb26d7 negative and large numbers were encoded to wrong RK words
C13 33e9545 skip_rows and take_rows together read too few rows
C13 56950da empty rows inside an XLSX sheet were kept or dropped contrary to take_rows_non_empty
C01 56950da empty rows inside an XLSX sheet shifted the rows below
C06 094ef33 rich shared strings lost runs, long ones were cut
C07 e133ead null values of XLSX were compared with indices of shared strings
C06 1288ece text cells with number or date styles were read as numbers
C01 1288ece text cells with number or date styles were read as numbers
C06 853a134 inline strings and long cell texts were cut
C01 853a134 inline strings were dropped
C18 08b3c16 errors of the XLSX thread gave a shortened table
C19 08b3c16 the XLSX thread was left running
C24 cd57403 workbooks without shared strings or styles were rejected
C17 0f28f60 absolute targets of sheets were not found
C17 dcd3bcc chartsheets counted as worksheets
C05 67e8b69 formats with fractions of seconds were taken as numbers
C05 dfc1a34 cell formats without optional attributes shifted the style indices
C24 dfc1a34 cell formats without optional attributes shifted the style indices
C05 923943b the length of an XLSB format code was read as part of the code
C05 69b55e4 XLSB number formats were compared by one byte of their id
C07 47fc676 error strings of XLSB were not recognised
C07 b41a4ec XLSB shared nulls were unknown until the first column existed
C06 727d36e a text beginning with a BOM character was decoded in the wrong byte order
C07 2c32b16 XLSX error cells with a code not listed were read as text
C24 6518288 XLSX cells without references were dropped or misplaced
C26 4c0f14e damaged XLSB cells read beyond their data
C18 e220449 an XLSB sheet cut before its end gave a shortened table
C06 058d967 _xHHHH_ escapes were returned literally
C02 2af341b rich text cells of XLSB were skipped
C24 205df76 number formats of conditional formatting changed the formats of cells
C05 205df76 number formats of conditional formatting changed the formats of cells
C24 b4b1677 stored XLSB archives with large skipped records lost cells
C13 f8f647c rows omitted from the file were not counted
C03 aaa470d booleans with a date style were dates in XLSX and numbers in XLSB
C31 03c8f81 slices of null chunks with an empty or exceeding stop had a wrong size
C31 4c0459e numeric chunks sliced with a step could not be converted
C31 b55756c a null chunk that was prepared was no longer null
C33 0106a02 bit masks of more than eight cells converted to NumPy in the wrong order
C33 56a425a dt_has_d took dates before 1970 and midnight of 1970-01-02 for bare times
C05 43f0d6e padding, filler, quoted and escaped characters of a format code were read as dates, decimals or section separators
C05 b12123b elapsed time in capitals ([H], [MM], [SS]) was not a time format
C03 86b13a2 numbers, dates and booleans of XLSX whose stored text is a null value were dropped (in XLSB they are kept)
"""
fixed = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(" ", 2)
    assert commit in log, commit
    fixed.append(f"fixed: property={pid} {commit} {what}")
findings = [{
    "property": "C10", "sub": "texts", "case": CASE,
    "what": "text naming an impossible day, 2021-02-31 in a date column with conflict_resolve='temporal', is read as 2021-03-03 instead of staying text (PyArrow's strptime rolls over)",
}]
with open("/verif/known_findings.json", "w") as f:
    json.dump({"findings": findings, "fixed": fixed}, f, indent=1)
    f.write("\n")
