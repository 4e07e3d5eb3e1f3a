// Package hscan holds the scenarios over pages: queries, scanning and scraping.
package hscan

import "github.com/yields/ant/zverif/mc"

var all []*mc.Scenario

func add(s *mc.Scenario) { all = append(all, s) }

// Scenarios returns all scenarios.
func Scenarios() []*mc.Scenario { return all }
