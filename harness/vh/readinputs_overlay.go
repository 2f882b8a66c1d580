//go:build verifexport

package main

import "github.com/metafates/bento"

func init() { readInputs = bento.VerifReadInputs }
