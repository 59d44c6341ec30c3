//verif:pkg internal/ratelimiter/core

package core

// ZZTotals exposes the process totals to harnesses of other packages.
func ZZTotals() (attempted, admits, refunds int64) { return getEventTotals() }
