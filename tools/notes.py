NOT_APPLICABLE = {}
PENDING = set()
LEVEL = {i: "exploration" for i in ("C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C23", "C24")}
TECH = {i: "deductive contracts on the real source where the generator reaches, bounded checking of the real code elsewhere" for i in LEVEL}
NOTE = {
 "C25": "The symbolic side fixes the selections and orders listed in contracts/c25.py (8 of them, 0 to 5 metrics) and covers all values; field separation is decided on the printed text, whose numbers never contain whitespace.",
 "C26": "Loop contracts on the repetition loop and on the sampling loop; sampler and metrics are arbitrary objects that record how they are used. Metric selections are the four of contracts/c26.py.",
 "C27": "The YAML parser is assumed to return the document's content; file shapes are those of contracts/c27.py, values are arbitrary. The shipped files and real YAML parsing are checked on the real code (bounded).",
 "C28": "make_grid's cartesian product (every combination exactly once) is bounded: dimensions one to four on the real code; axes, shape and number of points are proved.",
 "C08": "The relative frequency with which a mixture uses its components is proved as 'the component index is drawn with the mixture's weights' and cross-checked by a bounded frequency test.",
}
