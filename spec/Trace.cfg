SPECIFICATION TraceSpec
CONSTANT Obl <- AllObl
