//go:build verif

package main

import "github.com/sugarme/tokenizer"

func init() { setChunkSize = tokenizer.SetTrainChunkSize }
