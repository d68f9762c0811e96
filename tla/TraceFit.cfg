SPECIFICATION Spec
CONSTANTS
  TraceFile = "t.ndjson"
  CHECK = "C01"
INVARIANTS Conforms Sane
