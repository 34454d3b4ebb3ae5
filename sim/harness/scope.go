//go:build go1.21

package main

// owners lists, for the kinds of violation that concern specific guarantees only,
// the properties they belong to. Every other kind (a crash of the process, a call
// that never returns, overlapping iterations, a history without explanation...)
// breaks whatever property is being checked.
var owners = map[string][]string{
	"figures":              {"C19"},
	"duration":             {"C19"},
	"last-data-time":       {"C19"},
	"history-figures":      {"C04", "C06", "C10", "C12", "C15", "C19", "C14"},
	"leak":                 {"C20"},
	"pace":                 {"C16"},
	"slow-control":         {"C16", "C01", "C22"},
	"notifier-overlap":     {"C09"},
	"notifier-instance":    {"C09"},
	"history-notification": {"C09", "C06", "C03", "C14"},
	"torn-centroids":       {"C08", "C06", "C10", "C14", "C12", "C18"},
	"mutated-centroids":    {"C08", "C10", "C14", "C12", "C18"},
	"predict":              {"C08", "C06", "C14"},
	"history-centroids":    {"C08", "C06", "C10", "C14", "C12"},
	"history-predict":      {"C08", "C06", "C14"},
	"wait-early":           {"C05", "C03"},
	"wait-late":            {"C05", "C01", "C03"},
	"timeout-late":         {"C05", "C01", "C03"},
	"race":                 {"C18", "C13"},
	"data-lost":            {"C07", "C14"},
	"data-duplicate":       {"C07", "C14"},
	"data-order":           {"C07", "C14"},
	"data-foreign":         {"C07", "C14"},
	"data-window":          {"C07", "C14"},
	"data-altered":         {"C07", "C14"},
	"weights":              {"C07", "C10", "C11"},
	"par-input":            {"C11", "C10"},
	"workers-left":         {"C11", "C20"},
	"par-result":           {"C11", "C10"},
	"par-repeat":           {"C11", "C10"},
	"par-cover":            {"C11", "C10"},
	"late-twice":           {"C13"},
	"late-early":           {"C13"},
	"late-element":         {"C13"},
	"late-answer":          {"C13"},
	"stream-step":          {"C12"},
	"stream-order":         {"C12"},
	"stream-lost":          {"C12"},
	"stream-rule":          {"C12"},
	"stream-foreign":       {"C12"},
	"stream-refused":       {"C12"},
	"stream-overfull":      {"C12"},
	"wait-slow":            {"C05", "C01", "C03", "C10"},
	"push-slow":            {"C12"},
	"mcmc-k":               {"C15"},
	"mcmc-centroid":        {"C15"},
	"mcmc-acc":             {"C15"},
	"impl-failure":         {"C10", "C15", "C11", "C12", "C06"},
	"hidden-failure":       {"C06", "C10", "C11"},
	"data-refused":         {"C07"},
	"finishing":            {"C04", "C05", "C10", "C01", "C03"},
	"batch":                {"C10", "C06"},
	"batch-result":         {"C10"},
	"iso-error":            {"C14"},
	"iso-result":           {"C14"},
	"iso-figures":          {"C14"},
	"neigh-race":           {"C21"},
	"neigh-error":          {"C21", "C06"},
	"neigh-result":         {"C21"},
	"neigh-figures":        {"C21"},
	"neigh-input":          {"C21"},
	"repro-error":          {"C23"},
	"repro-result":         {"C23"},
	"repro-figures":        {"C23"},
	"held-call":            {"C22"},
	"held-up":              {"C21", "C01", "C05", "C09"},
	"copy-conf":            {"C14"},
	"copy-space":           {"C14"},
	"copy-status":          {"C14"},
	"copy-impl":            {"C14"},
}

func inScope(prop, kind string) bool {
	l, ok := owners[kind]
	if !ok {
		return true
	}
	for _, p := range l {
		if p == prop {
			return true
		}
	}
	return false
}
