//go:build go1.22

// Command replay runs one harness natively with recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/bytesparadise/libasciidoc/zz_verif/harness"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
	log "github.com/sirupsen/logrus"
)

func main() {
	log.SetOutput(io.Discard)
	var job struct {
		Harness string    `json:"harness"`
		Inputs  []sym.Val `json:"inputs"`
		Scratch string    `json:"scratch"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	h := harness.All[job.Harness]
	if h == nil {
		fmt.Fprintln(os.Stderr, "unknown harness", job.Harness)
		os.Exit(3)
	}
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	r := sym.Replay(h, job.Inputs, job.Scratch)
	json.NewEncoder(out).Encode(r)
}
