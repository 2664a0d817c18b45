from .common import *
from .shapes import shape_subs

RULE = "Random XLSB worksheets built by an independent writer and read back; oracle: reference reader on the workbook spec."
SUBS = shape_subs("xlsb")
