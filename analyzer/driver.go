package main

// Obligations that are not pairs of functions: effects, tables, call sites.

func driverTasks(p *Program) []*task {
	var out []*task
	content := "what reaches standard output and the output file, on every path that reports success, equals the rule"
	out = append(out,
		commandTask("C28", "C28_ical", "ical", "rule_ical", "content", content),
		commandTask("C29", "C29_caldays", "caldays", "rule_caldays", "content", content))
	out = append(out, yearsTask())
	out = append(out, dataTasks()...)
	out = append(out, effectTasks()...)
	for _, c := range []string{"ical", "caldays"} {
		out = append(out,
			commandTask("C30", "C30_"+c+"_status", c, "rule_"+c, "status", "the program ends with a non-zero status exactly when a date, the encoding, opening or writing the file fails"),
			commandTask("C30", "C30_"+c+"_replace", c, "rule_"+c, "mode", "an existing output file is replaced"),
			commandTask("C30", "C30_"+c+"_dates", c, "rule_"+c, "dates", "the calendar days are requested for the given or default dates"),
			flagsTask("C30", "C30_"+c+"_flags", c))
	}
	return out
}
