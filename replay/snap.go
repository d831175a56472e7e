package main

import (
	"sort"
	"strings"

	fastac "github.com/abichinger/fastac"
)

// snapshot lists everything a request could change.
func snapshot(e *fastac.Enforcer) string {
	rows := []string{}
	e.GetModel().RangeRules(func(rule []string) bool {
		rows = append(rows, key(rule))
		return true
	})
	sort.Strings(rows)
	return e.GetModel().String() + strings.Join(rows, "\n")
}
