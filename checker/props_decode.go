package main

func init() {
	register(&Check{id: "P05", minObs: 27,
		assume: []string{"the YAML library decodes a document into a value of a type always in the same way; a scalar that does not fit leaves its target as it was"},
		rule:   "guarded value flow of each UnmarshalYAML method for an arbitrary decoding function equals the reference: the short form is tried first, then the long form, and exactly its fields are used; an error of the last form is returned; MarshalYAML of variables and settings gives the secret reference or the value",
		run: func(c *Ctx) {
			for _, n := range []string{"Build", "Condition", "Variable", "Parameter", "Port", "Push", "BytesSize"} {
				c.pair("Decode"+n, c.fnPos(c.w.method("yaml", n, "UnmarshalYAML", true)), n+".UnmarshalYAML")
			}
			for _, n := range []string{"Variable", "Parameter"} {
				c.pair("Encode"+n, c.fnPos(c.w.method("yaml", n, "MarshalYAML", true)), n+".MarshalYAML")
			}
		}})
}
