// Package checks holds one exploration per property.
package checks

import "verifmc/core"

var registry = map[string]*core.Check{}

func register(c *core.Check) {
	if c.Level == "" {
		c.Level = "model_checking"
	}
	registry[c.ID] = c
}

// Get returns a check by property id.
func Get(id string) *core.Check { return registry[id] }

// IDs lists the checks.
func IDs() []string { return core.SortedKeys(registry) }
