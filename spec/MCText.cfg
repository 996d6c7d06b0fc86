CONSTANTS Len0 = 5 P = 2 QLow = 4 QMax = 3 Part = "format"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ScanOk ValueOk FormatOk TripOk ParseOk StrfromOk LocaleOk GroupOk
