package proc

// ZZHistory is the log history kept for the i-th source.
func ZZHistory(l *LogProcessor, i int) []string { return l.sources[i].q.Copy() }

// ZZSources is the number of sources.
func ZZSources(l *LogProcessor) int { return len(l.sources) }
