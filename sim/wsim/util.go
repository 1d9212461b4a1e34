package wsim

import (
	"net/http"
	"net/url"
	"sort"
)

func sortedKeys(v url.Values) []string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedScripts(m map[string][]Op) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func httpTime(mod int64) string {
	return modTime(mod).UTC().Format(http.TimeFormat)
}

func sortStrings(s []string) { sort.Strings(s) }
