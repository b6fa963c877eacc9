# properties no schedule, fault, time, I/O or other party bears on
prop("C36", "Text, byte and time conversions invert each other",
     "The hexadecimal, address, hash, big-number, padding and millisecond-time helpers give for every input the value their names say, and conversion there and back gives the input.",
     ["inputs"], "all inputs of the conversion helpers", "Few of the helpers are called by tests at all.",
     [U + "hex.go", U + "string.go", U + "time.go"], [("conversions", U + "hex.go, " + U + "string.go, " + U + "time.go")],
     na="Pure single-call functions of their arguments: no scheduling, clock, I/O, prover or second party exists for a simulator to control, and no fault can be injected; plain property-based testing would be the right tool, and this study is about simulation.")
