//go:build go1.21

// Package lndhook stands between boltnd and lndclient.NewLndServices in the
// instrumented build: connecting to lnd goes to the simulator.
package lndhook

import "github.com/lightninglabs/lndclient"

// Connect is set by the simulator.
var Connect func(cfg *lndclient.LndServicesConfig) (*lndclient.GrpcLndServices, error)

// NewLndServices replaces lndclient.NewLndServices.
func NewLndServices(cfg *lndclient.LndServicesConfig) (*lndclient.GrpcLndServices, error) {
	return Connect(cfg)
}
