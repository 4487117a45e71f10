// Package linked gives the checks access to reference functions gnark-crypto does not export.
package linked

import (
	_ "unsafe"

	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

// G2Isogeny maps a point of the SSWU curve to the twist, in place.
//
//go:linkname G2Isogeny github.com/consensys/gnark-crypto/ecc/bls12-381.g2Isogeny
func G2Isogeny(p *cr.G2Affine)
