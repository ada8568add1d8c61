package ref

import (
	"crypto/sha256"
	"crypto/sha512"
)

// SHA-2 comes from the Go standard library, which the model trusts.

func SHA256(b []byte) [32]byte { return sha256.Sum256(b) }
func SHA512(b []byte) [64]byte { return sha512.Sum512(b) }
