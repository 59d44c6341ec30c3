// Package m_promhttp stands in for the Prometheus HTTP exporter.
package m_promhttp

import "net/http"

//verif:model github.com/prometheus/client_golang/prometheus/promhttp.Handler
func Handler() http.Handler { return http.NotFoundHandler() }
