// Package props holds the scenarios that decide the properties.
package props

import "verifmc/mc"

// Tier is the tier being run.
var Tier = "quick"

var all []*mc.Scenario

func reg(s *mc.Scenario) { all = append(all, s) }

// All lists the scenarios.
func All() []*mc.Scenario { return append(all[:len(all):len(all)], races(all)...) }
