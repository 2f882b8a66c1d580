//go:build verifexport

// Built into package bento through an overlay: gives the harness access to the input decoder.
package bento

import (
	"context"
	"io"
)

func VerifReadInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error {
	return readInputs(ctx, msgs, input)
}
