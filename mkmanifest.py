"""Writes MANIFEST.json."""
import json

BASE = "Search over generated inputs; it establishes no absence of violations beyond the cases of the run. Trusts the independent writers (pbt/wb.py) and the oracle named here."
N = {
    "C01": ("property-based testing: generated XLSX sheets against a reference reader", "Columns A..XFD each once; rows, kinds and gaps sampled."),
    "C02": ("property-based testing: generated XLSB record streams against a reference reader", "Columns A..XFD each once; rows, kinds and gaps sampled."),
    "C03": ("property-based testing: differential XLSX against XLSB over sheets and options", "The two readers of the repository check each other; faults common to both are left to C01, C02 and C08-C16."),
    "C04": ("property-based testing: serials built from instants, exact rational oracle", "Accepts 0.58 ms off the exact instant, which only the nearest millisecond meets, up to double rounding."),
    "C05": ("property-based testing: grammar-generated format codes and style tables, class known by construction", "Codes come from a grammar whose class is known; arbitrary codes are not classified."),
    "C06": ("property-based testing: round trip of generated texts through shared, rich, formula and inline storage", "Texts up to 32767 units over all assigned characters XML can hold."),
    "C07": ("property-based testing: metamorphic (null cells against absent cells) and reference reader", "Null lists and predicates drawn; predicates are pure."),
    "C08": ("property-based testing: exact rational rule for integer columns, bitwise comparison of doubles", "Values at the rounding boundary itself are accepted either way."),
    "C09": ("property-based testing: generated mixtures of runs against a reference of the four strategies", "Mixtures whose outcome depends on unspecified text forms are accepted either way."),
    "C10": ("property-based testing: date texts made from known instants; all days 1900-2200 (thorough)", "One known finding (impossible days roll over)."),
    "C11": ("property-based testing: generated header grids against a reference of the naming rules", "Headers whose text depends on number formatting are compared by value."),
    "C12": ("property-based testing: generated header positions, patterns and windows against a reference", "Where several rows match, any of them is accepted."),
    "C13": ("property-based testing: list-slicing reference over generated row patterns and options", "Up to 20 stored rows and gaps to 300; sizes beyond that in C27."),
    "C14": ("property-based testing: metamorphic (skip_cols against cells deleted) and reference reader", "Sets of up to a few columns."),
    "C15": ("property-based testing: boolean fold over the filter columns as reference", "Patterns drawn from the column names."),
    "C16": ("property-based testing: metamorphic against casting the table read without dtypes", "Trusts PyArrow's own cast."),
    "C17": ("property-based testing: generated package layouts, content tells the sheet", "Layouts of the OPC kind that Office and other writers produce."),
    "C18": ("property-based testing with generated fault injection", "Faults at drawn positions: cuts, malformed XML, I/O errors, checksum errors, exceptions in callbacks."),
    "C19": ("stateful property-based testing: histories of succeeding, failing and concurrent reads", "Thread schedules are those the operating system gives; they are not enumerated."),
    "C20": ("property-based testing: round trip of generated record sequences, cut points, id sets", "Payloads to above 2 MiB."),
    "C21": ("property-based testing: independent decoder, all 2^32 words in the thorough tier", "The thorough run enumerates the 32-bit domain of the decoder."),
    "C22": ("property-based testing: exact round trip over drawn and boundary timestamps", "Millisecond grid 1900-9999 sampled."),
    "C23": ("property-based testing: round trips and an independent encoder and decoder", "Relationship types are names without '/'."),
    "C24": ("property-based testing: metamorphic over equivalent serialisations and input forms", "Conventional namespace prefixes; shared string and style parts under their usual names."),
    "C25": ("stateful property-based testing: histories on one column against a list model", "Histories of up to a few dozen steps."),
    "C26": ("structure-aware fuzzing of valid workbooks and random bytes; Arrow full validation as oracle", "Memory limited to 3 GiB and 90 s per case; a crash or hang is confirmed in a fresh process."),
    "C27": ("property-based testing at size thresholds: reference reader and repeated-block relation", "Sizes around the thresholds, up to 70000 rows (1048576 in the thorough tier)."),
    "C28": ("property-based testing: call counts bounded by the sheet, tables compared with and without callback", "Callbacks that raise are left to C18."),
    "C29": ("property-based testing: generated invalid arguments over generated sheets, rejection as oracle", "Only the argument kinds listed in the statement."),
    "C30": ("stateful property-based testing: histories of iterations against the cells of the spec", "Histories of up to six operations on up to four sheets."),
    "C31": ("stateful property-based testing: chains of selections and conversions against plain lists", "Backward slices only in full."),
    "C33": ("property-based testing: struct, Python and pyarrow.compute as references for every helper", "Whole arrays where a helper is documented to ignore offsets."),
    "C32": ("property-based testing: differential between processes under generated environments", "Time zones, locales and thread counts available in the sandbox."),
}
checks = []
for pid, (tech, note) in N.items():
    checks.append({
        "property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid}", "thorough_cmd": f"env VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
        "technique": tech, "level": "exploration", "level_note": f"{note} {BASE}",
    })  # fmt: skip
with open("/verif/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
